"""C02: logging, reconfiguring and exiting always terminate."""
import itertools
import logging
import threading
import time

from polog import config, log, message, unlog

from mc import boot
from mc.sched import calm
from checks.common import ALL, CORE, ENGINE, TESTS, Recorder, Scenario, flush, handler, thread

P = '/repo/polog/'


class Mix(Scenario):
    """Runs a list of operations, one thread each (the first in the main thread), over a prepared engine."""
    exclude = TESTS

    def __init__(self, name, start, ops, started=True, nested=0, trace=ENGINE, timeouts=False, exit_in=False, slow=0, max_steps=60000):
        self.name = name
        self.start = start
        self.ops = ops
        self.started = started
        self.nested = nested
        self.trace = trace
        self.timeouts = timeouts
        self.exit_in = exit_in
        self.slow = slow
        self.max_steps = max_steps

    def prepare(self):
        self.rec = Recorder(sleep=self.slow)
        self.n = 0

        def h(item):
            self.rec(item)
            m = item['message']
            if self.nested and 'nested' not in m:
                for i in range(self.nested):
                    log('nested')
        self.h = h
        config.add_handlers(main=h)
        config.set(time_quant=0.1, max_delay_before_exit=100)
        for k, v in self.start:
            config.set(**{k: v})

    def do(self, op):
        kind = op[0]
        if kind == 'log':
            log('x')
        elif kind == 'log2':
            log('x')
            log('y')
        elif kind == 'set':
            try:
                config.set(**{op[1]: op[2]})
            except ValueError:
                pass
        elif kind == 'handler':
            config.add_handlers(extra=handler(lambda item: None))
            config.delete_handlers('extra')
        elif kind == 'levels':
            config.levels(some=7)
        elif kind == 'decorate':
            @log
            def f():
                message('q')
            f()
        elif kind == 'unlog':
            @unlog
            def g():
                log('z')
            g()
        elif kind == 'std':
            logging.getLogger().warning('std')
        elif kind == 'exit':
            errors = boot.run_exit()
            if errors:
                raise AssertionError('exit failed: %r' % errors)

    def main(self):
        if self.started:
            with calm():
                log('first')
        ts = []
        for op in self.ops[1:]:
            ts.append(thread(self.do, op))
        self.do(self.ops[0])
        for t in ts:
            t.join()
        if self.ops[0][0] != 'exit':
            with calm():
                flush()
                log('last')
                boot.run_exit()
        return len(self.rec.items)

    def check(self, obs, s):
        return []


P1 = (('pool_size', 1),)
P1Q1 = (('pool_size', 1), ('max_queue_size', 1))
P2Q1 = (('pool_size', 2), ('max_queue_size', 1))
CORE_SETTINGS = ENGINE + (P + 'core/stores/settings',)


def scenarios():
    yield Mix('first-log-vs-change', (), (('set', 'pool_size', 1), ('log',)), started=False, trace=CORE_SETTINGS), 2, 3
    yield Mix('first-log-twice', P1, (('log',), ('log',)), started=False), 1, 3
    yield Mix('first-log-vs-change-vs-log', (), (('set', 'pool_size', 1), ('log',), ('log',)), started=False), 1, 2
    yield Mix('nested-reload', P1, (('set', 'pool_size', 2), ('log',)), nested=1), 2, 3
    yield Mix('nested-full-queue', P1Q1, (('set', 'max_queue_size', 2), ('log',)), nested=2), 1, 3
    yield Mix('nested-full-queue-2', P2Q1, (('log2',), ('log2',)), nested=2), 1, 2
    yield Mix('two-changes', P1, (('set', 'pool_size', 2), ('set', 'max_queue_size', 2)), trace=CORE_SETTINGS), 1, 2
    yield Mix('two-changes-log', P1, (('set', 'pool_size', 2), ('set', 'pool_size', 3), ('log',))), 1, 2
    yield Mix('to-sync', P1, (('set', 'pool_size', 0), ('log2',)), nested=1), 1, 2
    yield Mix('exit-vs-log', P1, (('exit',), ('log',))), 2, 3
    yield Mix('exit-vs-nested', P1Q1, (('exit',), ('log',)), nested=2), 1, 2
    yield Mix('exit-vs-log-2', P2Q1, (('exit',), ('log2',), ('log',))), 1, 2
    yield Mix('exit-vs-change', P1, (('exit',), ('set', 'pool_size', 2))), 1, 2
    yield Mix('exit-vs-change-to-sync', P1, (('exit',), ('set', 'pool_size', 0), ('log',))), 1, 2
    yield Mix('exit-sync', (), (('exit',), ('log',))), 1, 2
    yield Mix('exit-before-first', P1, (('exit',), ('log',)), started=False), 1, 2
    yield Mix('handlers', (), (('handler',), ('log',), ('set', 'pool_size', 1)), trace=ALL), 1, 2
    yield Mix('decorate', P1, (('decorate',), ('unlog',), ('set', 'pool_size', 0)), trace=ALL), 1, 2
    yield Mix('std', P1, (('std',), ('set', 'logging_off', False), ('log',)), trace=ALL), 1, 2
    yield Mix('std-off', (), (('std',), ('set', 'integration_with_logging', False), ('set', 'logging_off', False)), trace=ALL), 1, 2
    yield Mix('timers', P1, (('set', 'pool_size', 2), ('log',)), timeouts=True, nested=1), 1, 2


def sequence(c, case):
    """Sequential histories: every operation terminates from every configuration."""
    m = Mix('seq', case[0], (), nested=case[1])
    m.prepare()
    for op in case[2]:
        c.op()
        m.do(op)
    c.state(case[0], case[1], len(m.rec.items))
    flush()
    m.do(('exit',))


def sequences(depth):
    ops = [('log2',), ('set', 'pool_size', 0), ('set', 'pool_size', 1), ('set', 'pool_size', 2), ('set', 'max_queue_size', 0),
           ('set', 'max_queue_size', 1), ('exit',), ('decorate',), ('std',)]
    for start in ((), P1, P1Q1, P2Q1):
        for nested in (0, 2):
            for d in range(1, depth + 1):
                for s in itertools.product(ops, repeat=d):
                    yield (start, nested, s)


# -- a handler that changes the engine settings -------------------------------------------------------------------
def handler_changes(c, case):
    start, queued, change, waiting = case
    seen = []
    gate = threading.Event()

    def h(item):
        seen.append(item['message'])
        if item['message'].startswith('go'):
            gate.wait(5)
            config.set(**dict([change]))
            seen.append('changed')
    config.add_handlers(h)
    config.set(time_quant=1, max_delay_before_exit=100)
    for k, v in start:
        config.set(**{k: v})
    if not dict(start).get('pool_size'):
        gate.set()
    log('go')
    for i in range(queued):
        log('more%d' % i)
    if waiting:
        log('go2')
    gate.set()
    while seen.count('changed') < 1 + waiting:
        time.sleep(1)
    log('after')
    flush()
    c.op(queued + 1)
    c.eq(sorted(seen), sorted(['go', 'changed', 'after'] + ['more%d' % i for i in range(queued)] + ['go2', 'changed'] * waiting), 'what was handled')


HANDLER_CHANGES = {
    'sync': [((), 0, ('pool_size', 2), 0), ((), 0, ('level', 0), 0), ((), 0, ('max_delay_before_exit', 3), 0)],
    'idle-worker': [(P1, 0, ('pool_size', 0), 0), (P1, 0, ('pool_size', 2), 0), (P1, 0, ('max_queue_size', 2), 0), (P2Q1, 0, ('pool_size', 1), 0)],
    'other-settings': [(s, q, x, w) for s in (P1, P2Q1) for q in (0, 1) for w in (0, 1) for x in (('level', 0), ('default_level', 2), ('service_name', 'abc'), ('max_delay_before_exit', 3))],
    'queued-one-worker': [(P1, 1, ('pool_size', 2), 0), (P1, 2, ('pool_size', 2), 0), (P1, 1, ('max_queue_size', 3), 0), (P1, 1, ('pool_size', 0), 0)],
}


class HandlerAgainstMain(Scenario):
    """A handler and the main thread change the engine settings at the same time."""
    exclude = TESTS
    trace = ENGINE

    def __init__(self, name, pool):
        self.name, self.pool = name, pool

    def prepare(self):
        def h(item):
            if item['message'] == 'go':
                config.set(pool_size=3)
        config.add_handlers(h)
        config.set(time_quant=0.1, max_delay_before_exit=100, pool_size=self.pool)

    def main(self):
        log('go')
        config.set(pool_size=2)
        with calm():
            flush()

    def check(self, obs, s):
        return []


def run(ctx):
    ctx.explore(HandlerAgainstMain('handler-and-main-change-settings', 1), 1, 1, fine=False)
    for name, cases in HANDLER_CHANGES.items():
        ctx.cases('handler-changes-settings-' + name, cases, handler_changes)
    ctx.cases('sequences', sequences(ctx.pick(3, 4)), sequence)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
