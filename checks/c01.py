"""C01: no record lost or duplicated across concurrent logging and reconfiguration; new configuration in force."""
import itertools
import threading
import time

from polog import config, log

from mc.sched import calm
from checks import volume
from checks.common import ALL, ENGINE, P, TESTS, Recorder, Scenario, flush, handler, thread


POOL = (P + 'core/engine/real_engines/multithreaded', )


class Writers(Scenario):
    """Writers log while the main thread reconfigures. start/steps are settings; `before` is logged by main first."""

    def __init__(self, name, start, steps, writers, before=1, slow=0, nested=False, trace=ENGINE, timeouts=False, style='log',
                 reconf_threads=(), opcodes=False):
        self.opcodes = opcodes
        self.name = name
        self.start = start
        self.steps = steps
        self.writers = writers
        self.before = before
        self.slow = slow
        self.nested = nested
        self.trace = trace
        self.exclude = TESTS
        self.timeouts = timeouts
        self.style = style
        self.reconf_threads = reconf_threads

    def prepare(self):
        self.first = Recorder(sleep=self.slow)
        self.second = Recorder()
        self.accepted = []
        self.late = []

        def one(item):
            self.first(item)
            if self.nested and not item['message'].startswith('n'):
                log('n' + item['message'])

        def two(item):
            self.second(item)
        config.add_handlers(one, two)
        config.set(time_quant=0.1, max_delay_before_exit=300)
        for k, v in self.start:
            config.set(**{k: v})
        if self.style == 'decorator':
            @log(message='auto')
            def f(x):
                return x
            self.f = f

    def say(self, m):
        if self.style == 'decorator':
            self.f(m)
        else:
            log(m)
        self.accepted.append('auto' if self.style == 'decorator' else m)

    def change(self, k, v):
        before = list(self.accepted)
        config.set(**{k: v})
        got = list(self.second.items)
        for m in set(before):
            if got.count(m) < before.count(m):
                self.late.append((k, v, m))

    def main(self):
        with calm():
            for i in range(self.before):
                self.say('m%d' % i)
        ts = []
        for w, n in enumerate(self.writers):
            def body(w=w, n=n):
                for i in range(n):
                    self.say('t%d%d' % (w, i))
            ts.append(thread(body))
        for k, v in self.reconf_threads:
            ts.append(thread(self.change, k, v))
        for k, v in self.steps:
            self.change(k, v)
        for t in ts:
            t.join()
        with calm():
            flush()
        return dict(first=sorted(self.first.items), second=sorted(self.second.items), late=self.late, order=self.first.items)

    def check(self, obs, s):
        base = ['m%d' % i for i in range(self.before)] + ['t%d%d' % (w, i) for w, n in enumerate(self.writers) for i in range(n)]
        if self.style == 'decorator':
            want = ['auto'] * len(base)
        else:
            want = base + (['n' + m for m in base] if self.nested else [])
        want = sorted(want)
        out = []
        for k in ('first', 'second'):
            if obs[k] != want:
                out.append('a handler received %r instead of %r' % (obs[k], want))
        for x in obs['late']:
            out.append('config.set(%s=%s) returned although record %r, accepted before the call, was not handled yet' % x)
        return out


def scenarios(ctx):
    P1, P2, P0 = (('pool_size', 1),), (('pool_size', 2),), ()
    yield Writers('grow', P1, (('pool_size', 2),), (1,)), 2, 3
    yield Writers('to-sync', P1, (('pool_size', 0),), (1,)), 2, 3
    yield Writers('to-async', P0, (('pool_size', 1),), (1,)), 2, 3
    yield Writers('limit', P1 + (('max_queue_size', 1),), (('max_queue_size', 2),), (2,)), 1, 2
    yield Writers('first-log', P1, (), (1, 1), before=0), 2, 3
    for a in (0, 1, 2):
        for k, v in (('pool_size', 0), ('pool_size', 1), ('pool_size', 2), ('pool_size', 3), ('max_queue_size', 1)):
            if (k == 'pool_size' and v != a) or (k != 'pool_size' and a):
                yield Writers('first-log-at-%d-vs-%s=%d' % (a, k, v), (('pool_size', a),), ((k, v),), (1,), before=0), 2 if v < 2 else 1, 3
    yield Writers('nested', P1, (('pool_size', 2),), (), nested=True), 2, 3
    yield Writers('slow', P2, (('pool_size', 1),), (1,), before=2, slow=3), 1, 2
    yield Writers('decorator', P1, (('pool_size', 0),), (1,), style='decorator'), 1, 2
    yield Writers('two-changes', P1, (('pool_size', 2),), (1,), reconf_threads=(('pool_size', 3),)), 1, 2
    yield Writers('timers', P1, (('pool_size', 2),), (1,), timeouts=True), 1, 2
    yield Writers('two-writers', P1, (('pool_size', 2),), (1, 1)), 1, 2
    yield Writers('inside-lines-two-writers', P1, (('pool_size', 0),), (1, 1), before=0, trace=POOL, opcodes=True), 2, 2
    yield Writers('inside-lines-to-sync', P1, (('pool_size', 0),), (1,), trace=POOL, opcodes=True), 2, 3
    yield Writers('wide', P1, (('pool_size', 2),), (1,), trace=ALL), 1, 2
    yield Writers('wide-sync', P0, (('pool_size', 2),), (1,), trace=ALL, before=0), 1, 2


def in_force(c, case):
    """After any sequence of accepted changes the engine has exactly the configured workers and queue limit."""
    started, ops = case
    pool, limit = 0, 0
    r = Recorder()
    gate = threading.Event()
    mode = ['free']
    running = [0, 0]

    def h(item):
        running[0] += 1
        running[1] = max(running)
        if mode[0] == 'hold':
            gate.wait()
        r(item)
        running[0] -= 1
    config.add_handlers(h)
    config.set(time_quant=1, max_delay_before_exit=300)
    n = 0
    if started:
        log('r%d' % n)
        n += 1
    for k, v in ops:
        c.op()
        bad = (k == 'pool_size' and v == 0 and limit) or (k == 'max_queue_size' and v and not pool)
        try:
            config.set(**{k: v})
            if bad:
                c.bad('conflicting change %s=%s accepted', k, v)
        except ValueError:
            if not bad:
                c.bad('change %s=%s refused', k, v)
        if not bad:
            if k == 'pool_size':
                pool = v
            else:
                limit = v
        log('r%d' % n)
        n += 1
        c.state(pool, limit, started)
    # measure
    if pool == 0:
        me = threading.get_ident()
        where = []
        config.add_handlers(probe=handler(lambda item: where.append(threading.get_ident())))
        log('r%d' % n)
        n += 1
        c.eq(where, [me], 'threads that handled a record with pool_size=0')
    else:
        time.sleep(200)
        c.eq(sorted(r.items), sorted('r%d' % i for i in range(n)), 'records handled')
        mode[0] = 'hold'
        put = []
        total = pool + (limit or 3) + 2

        def producer():
            for i in range(total):
                log('r%d' % (n + i))
                put.append(i)
        t = thread(producer)
        time.sleep(50)
        c.eq(running[0], pool, 'records handled at the same time with pool_size=%d' % pool)
        c.eq(len(put), pool + limit if limit else total, 'records accepted while %d workers are busy and max_queue_size=%d' % (pool, limit))
        mode[0] = 'free'
        gate.set()
        t.join()
        n += total
        flush()
    c.eq(sorted(r.items), sorted('r%d' % i for i in range(n)), 'all records handled exactly once')


def in_force_cases(depth):
    ops = [('pool_size', v) for v in (0, 1, 2, 3)] + [('max_queue_size', v) for v in (0, 1, 2)]
    for started in (True, False):
        for d in range(0, depth + 1):
            for s in itertools.product(ops, repeat=d):
                yield (started, s)
        for big in (4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 50, 64, 100):
            yield (started, (('pool_size', big),))
            yield (started, (('pool_size', 2), ('max_queue_size', big)))
            yield (started, (('pool_size', big), ('max_queue_size', big), ('pool_size', 3)))


def run(ctx):
    ctx.cases('configuration-in-force', in_force_cases(ctx.pick(3, 4)), in_force)
    for scn, q, t in scenarios(ctx):
        ctx.explore(scn, q, t)
    volume.run(ctx, 'C01')
