"""C03: a normal exit flushes every accepted record within the allowed delay and never takes much longer."""
import itertools
import threading
import time

from polog import config, log

from mc import boot
from mc.sched import calm
from checks import volume
from checks.common import ALL, ENGINE, TESTS, Recorder, Scenario, handler, thread

FOREVER = 10000.0


def exit_case(c, case):
    pool, limit, n, slow, delay, nested, late, quant = case
    rec = Recorder(sleep=slow)

    def h(item):
        rec(item)
        if nested and item['message'].startswith('r'):
            log('n' + item['message'])
    config.add_handlers(h)
    config.set(max_delay_before_exit=delay, time_quant=quant)
    if pool:
        config.set(pool_size=pool)
        if limit:
            config.set(max_queue_size=limit)
    want = []
    for i in range(n):
        log('r%d' % i)
        want.append('r%d' % i)
        if nested:
            want.append('nr%d' % i)
        c.op()
    if late:
        # a callback registered earlier than polog's runs after it
        boot.exit_callbacks.insert(0, (lambda: log('late'), (), {}))
    t0 = time.monotonic()
    before = list(rec.items)
    errors = boot.run_exit()
    took = time.monotonic() - t0
    c.state(pool, limit, n, slow, delay, len(before), len(rec.items))
    c.eq(errors, [], 'errors at exit')
    poll = quant * 10
    # what the handlers still need after the exit began, at most (perfectly parallel work is not assumed)
    records = n * (2 if nested else 1)
    need = (records if nested else -(-records // pool)) * slow if pool else 0
    overhead = 2 * poll + 2 * quant + 0.3
    after = slow if (late and pool == 0) or late else 0
    if need + overhead < delay or pool == 0 or n == 0:
        got = [m for m in rec.items if m != 'late']
        c.eq(sorted(got), sorted(want), 'records handled when the exit finished')
        if took > need + overhead + after:
            c.bad('the exit took %.2f s although the handlers need only %.2f s', took, need)
    if took > delay + overhead + after:
        c.bad('the exit took %.2f s, allowed were %.2f s', took, delay)
    for m in set(rec.items):
        if rec.items.count(m) > 1:
            c.bad('record %r handled twice', m)


def exit_cases(thorough):
    pools = (0, 1, 2, 3)
    ns = (0, 1, 2, 3, 5) if not thorough else tuple(range(0, 9))
    slows = (0, 0.03, 0.4, 2.5, FOREVER) if not thorough else (0, 0.03, 0.11, 0.4, 0.9, 2.5, FOREVER)
    delays = (0, 0.5, 1.0, 10) if not thorough else (0, 0.2, 0.5, 1.0, 3, 10)
    for pool in pools:
        for limit in ((0, 1, 2) if pool else (0,)):
            for n, slow, delay in itertools.product(ns, slows, delays):
                if slow == FOREVER and (pool == 0 or (limit and n > pool + limit)):
                    continue
                for nested in (False, True):
                    if nested and slow == FOREVER:
                        continue
                    for late in (False, True):
                        if late and slow == FOREVER:
                            continue
                        for quant in (0.01, 0.05):
                            yield (pool, limit, n, slow, delay, nested, late, quant)


class ExitRace(Scenario):
    """The program ends while worker threads are at any point of their work; daemon threads may still log."""
    exclude = TESTS

    def __init__(self, name, pool, limit, n, daemons, slow=0, nested=False, trace=ENGINE, timeouts=False):
        self.name, self.pool, self.limit, self.n, self.daemons = name, pool, limit, n, daemons
        self.slow, self.nested, self.trace, self.timeouts = slow, nested, trace, timeouts

    def prepare(self):
        self.rec = Recorder(sleep=self.slow)

        def h(item):
            self.rec(item)
            if self.nested and item['message'].startswith('r'):
                log('n' + item['message'])
        config.add_handlers(h)
        config.set(time_quant=0.1, max_delay_before_exit=1000, pool_size=self.pool)
        if self.limit:
            config.set(max_queue_size=self.limit)
        self.accepted = []

    def main(self):
        with calm():
            log('warm')
        def body(i):
            log('d%d' % i)
            self.accepted.append('d%d' % i)
        for i in range(self.daemons):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            t.start()
        for i in range(self.n):
            log('r%d' % i)
            self.accepted.append('r%d' % i)
        begun = list(self.accepted)
        if self.nested:
            begun += ['n' + x for x in begun if x.startswith('r')]
        errors = boot.run_exit()
        return dict(begun=begun, got=list(self.rec.items), errors=errors)

    def check(self, obs, s):
        out = []
        if obs['errors']:
            out.append('the exit failed: %r' % obs['errors'])
        for m in obs['begun']:
            if obs['got'].count(m) != 1:
                out.append('record %r was accepted before the exit but handled %d times' % (m, obs['got'].count(m)))
        for m in set(obs['got']):
            if obs['got'].count(m) > 1:
                out.append('record %r handled twice' % m)
        return out


def scenarios():
    yield ExitRace('one-worker', 1, 0, 2, 0), 2, 3
    yield ExitRace('two-workers', 2, 0, 2, 0), 1, 3
    yield ExitRace('bounded', 1, 1, 2, 0), 2, 3
    yield ExitRace('nested', 1, 0, 1, 0, nested=True), 2, 3
    yield ExitRace('daemon', 1, 0, 1, 1), 2, 3
    yield ExitRace('daemon-bounded', 1, 1, 2, 1), 1, 2
    yield ExitRace('slow', 2, 0, 3, 0, slow=7), 1, 3
    yield ExitRace('timers', 2, 0, 2, 0, timeouts=True), 1, 2
    yield ExitRace('wide', 1, 0, 2, 1, trace=ALL), 1, 2


def history_case(c, case):
    """Any history of settings changes and records before the exit: the settings in force at the exit decide."""
    slow, ops = case
    rec = Recorder(sleep=slow)
    config.add_handlers(rec)
    pool, limit, delay, quant = 0, 0, 1.0, 0.01
    want = []
    for n, op in enumerate(ops):
        c.op()
        if op == 'r':
            log('r%d' % n)
            want.append('r%d' % n)
        elif op[0] == 'p':
            pool = int(op[1:])
            if pool == 0 and limit:
                config.set(max_queue_size=0)
                limit = 0
            config.set(pool_size=pool)
        elif op[0] == 'q':
            if pool:
                limit = int(op[1:])
                config.set(max_queue_size=limit)
        elif op[0] == 'd':
            delay = float(op[1:])
            config.set(max_delay_before_exit=delay)
        elif op[0] == 't':
            quant = float(op[1:])
            config.set(time_quant=quant)
    t0 = time.monotonic()
    left = len(want) - len(rec.items)
    errors = boot.run_exit()
    took = time.monotonic() - t0
    c.eq(errors, [], 'errors at exit')
    overhead = 20 * quant + 2 * quant + 0.3
    need = (left + (pool or 0)) * slow
    if need + overhead < delay or pool == 0:
        c.eq(sorted(rec.items), sorted(want), 'records handled when the exit finished')
    if took > delay + overhead:
        c.bad('the exit took %.2f s, allowed were %.2f s', took, delay)
    c.state(ops, slow, len(rec.items))


def histories(thorough):
    ops = ('r', 'p0', 'p1', 'p2', 'q1', 'd0.4', 'd30', 't0.05')
    for slow in (0.1, 0.6):
        for n in range(1, 5 if thorough else 4):
            for mid in itertools.product(ops, repeat=n):
                if 'r' in mid:
                    yield (slow, mid + ('r', 'r', 'r'))


def reloading_case(c, case):
    """The program ends while another thread is in the middle of a settings change that waits for slow handlers."""
    pool, n, slow, delay, change, wait = case
    rec = Recorder(sleep=slow)
    config.add_handlers(lambda item: rec(item))
    config.set(max_delay_before_exit=delay, pool_size=pool)
    for i in range(n):
        log('r%d' % i)
        c.op()
    threading.Thread(target=lambda: config.set(**change), daemon=True).start()
    time.sleep(wait)
    t0 = time.monotonic()
    errors = boot.run_exit()
    took = time.monotonic() - t0
    c.eq(errors, [], 'errors at exit')
    overhead = 0.3 + 22 * 0.01
    if took > delay + overhead:
        c.bad('the exit took %.2f s, allowed were %.2f s', took, delay)
    need = -(-n // pool) * slow
    if need + 2 * overhead < delay:
        c.eq(sorted(rec.items), ['r%d' % i for i in range(n)], 'records handled when the exit finished')
        if took > need + 2 * overhead:
            c.bad('the exit took %.2f s although the handlers need only %.2f s', took, need)
    c.state(pool, n, slow, delay, wait, len(rec.items))


def callbacks_case(c, case):
    """Other exit callbacks take their time before and after polog's and log; nothing disturbs them."""
    pool, slow, delay, pauses = case
    rec = Recorder(sleep=slow)
    config.add_handlers(lambda item: rec(item))
    config.set(max_delay_before_exit=delay, pool_size=pool)
    log('r')
    done = []

    def callback(k, pause):
        time.sleep(pause)
        log('c%d' % k)
        done.append(k)
    for k, pause in enumerate(pauses):
        # the callbacks registered before polog's run after it
        boot.exit_callbacks.insert(k if k % 2 == 0 else len(boot.exit_callbacks), (callback, (k, pause), {}))
    errors = boot.run_exit()
    c.eq(errors, [], 'errors at exit')
    c.eq(sorted(done), list(range(len(pauses))), 'exit callbacks that ran to their end')
    time.sleep(slow * 10 + 1)
    c.eq(sorted(rec.items), sorted(['r'] + ['c%d' % k for k in range(len(pauses))]), 'records handled')
    c.state(pool, slow, delay, pauses)


def callbacks_cases(thorough):
    for pool, slow, delay in itertools.product((0, 1, 2), (0, 0.2), (0.7, 1.0, 5)):
        for n in (1, 2, 3):
            for pauses in itertools.product((0, 0.5, 3, 11), repeat=n):
                yield pool, slow, delay, pauses


def reloading_cases(thorough):
    for pool, n, slow, delay, change, wait in itertools.product((1, 2), (1, 2, 3), (0.03, 0.4, 2.5, 100.0), (0, 0.5, 1.0, 10),
                                                                (dict(pool_size=0), dict(pool_size=3), dict(max_queue_size=5)), (0, 0.02, 0.2)):
        yield pool, n, slow, delay, change, wait


def run(ctx):
    ctx.cases('slow-callbacks', callbacks_cases(ctx.thorough), callbacks_case)
    ctx.cases('exit-while-reloading', reloading_cases(ctx.thorough), reloading_case)
    ctx.cases('exit-matrix', exit_cases(ctx.thorough), exit_case)
    ctx.cases('histories', histories(ctx.thorough), history_case)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
    volume.run(ctx, 'C03')
