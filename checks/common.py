"""Helpers shared by the checks. Only polog's public API is used."""
import os
import threading
import time

from polog import config, log

from mc import sched
from mc.explore import Scenario

P = '/repo/polog/'
ENGINE = (P + 'core/engine', )
CORE = (P + 'core', )
ALL = (P, )
TESTS = (P + 'tests', )


class Recorder:
    """A handler that remembers what it was given, by which thread and when."""

    def __init__(self, fields=('message',), sleep=0):
        self.items = []
        self.fields = fields
        self.sleep = sleep
        self.running = 0
        self.max_running = 0

    def __call__(self, item):
        self.running += 1
        self.max_running = max(self.max_running, self.running)
        if self.sleep:
            time.sleep(self.sleep)
        self.items.append(tuple(item.get(f) for f in self.fields) if len(self.fields) > 1 else item.get(self.fields[0]))
        self.running -= 1


def handler(fn):
    """A plain function handler, as the documentation shows."""
    def h(log_item):
        return fn(log_item)
    return h


def thread(fn, *args):
    t = threading.Thread(target=fn, args=args)
    t.start()
    return t


def flush():
    """After this returns every accepted record has been handled (this is part of property C01)."""
    config.set(max_queue_size=0)
    config.set(pool_size=0)


def fresh_dir():
    return os.environ['MC_DIR']


class Note:
    """What a running Program observed and what was wrong with it."""

    def __init__(self):
        self.obs = []
        self.viol = []

    def observe(self, *x):
        self.obs.append(x)

    def bad(self, text, *args):
        self.viol.append(text % args if args else text)

    def check(self, ok, text, *args):
        if not ok:
            self.bad(text, *args)

    def eq(self, got, want, what):
        if got != want:
            self.bad('%s: got %r, expected %r', what, got, want)


class Program(Scenario):
    """A scenario whose run(k) observes and judges at the same time."""

    def run(self, k):
        raise NotImplementedError

    def main(self):
        k = Note()
        self.run(k)
        return repr(k.obs), tuple(k.viol)

    def check(self, obs, s):
        return list(obs[1])


# -- asyncio tasks under control ----------------------------------------------------------------------------------
def interleavings(counts):
    """All orders in which tasks 0..n-1 with the given numbers of steps can make their steps."""
    def rec(left, prefix):
        if not any(left):
            yield tuple(prefix)
            return
        for i, n in enumerate(left):
            if n:
                left[i] -= 1
                prefix.append(i)
                yield from rec(left, prefix)
                prefix.pop()
                left[i] += 1
    yield from rec(list(counts), [])


def run_tasks(bodies, order, parent=None, inside=False):
    """
    Run the coroutine functions in real asyncio tasks; body(step) awaits step() wherever another task may run. The
    steps are released in the given order; returns what the tasks returned or raised. parent(start, settle) may wrap the creation;
    with inside=True its settle() returns only when all the tasks have gone through the order.
    """
    import asyncio

    async def main():
        loop = asyncio.get_running_loop()
        waiting = {}

        async def settle():
            for _ in range(8):
                await asyncio.sleep(0)

        def step_of(i):
            async def step():
                fut = loop.create_future()
                waiting[i] = fut
                await fut
            return step

        async def task(i):
            await step_of(i)()
            return await bodies[i](step_of(i))
        tasks = []

        def start():
            tasks.extend(loop.create_task(task(i)) for i in range(len(bodies)))

        async def go():
            await settle()
            for i in order:
                fut = waiting.pop(i, None)
                if fut is not None and not fut.done():
                    fut.set_result(None)
                await settle()
            while waiting:
                i = min(waiting)
                waiting.pop(i).set_result(None)
                await settle()
        if parent is None:
            start()
        else:
            await parent(start, go if inside else settle)
        await go()
        return await asyncio.gather(*tasks, return_exceptions=True)
    return asyncio.run(main())
