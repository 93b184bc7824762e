"""C04: the synchronous engine handles at once, in the caller; one worker keeps the order of acceptance."""
import itertools
import threading
import time

from polog import config, log

from mc.sched import calm
from checks.common import ALL, ENGINE, TESTS, Recorder, Scenario, flush, handler, thread


class Order(Scenario):
    exclude = TESTS

    def __init__(self, name, start, steps, writers, before=1, trace=ENGINE, timeouts=False, one_at_a_time=True, kind='log', sleep=0, nested=()):
        self.name, self.start, self.steps, self.writers = name, start, steps, writers
        self.before, self.trace, self.timeouts, self.one, self.kind = before, trace, timeouts, one_at_a_time, kind
        self.sleep = sleep
        self.nested = nested

    def prepare(self):
        self.rec = Recorder(sleep=self.sleep)
        self.clock = 0
        self.calls = {}

        def h(item):
            self.rec(item)
            if item['message'] in self.nested:
                self.say('n' + item['message'])
        config.add_handlers(h)
        config.set(time_quant=0.1, max_delay_before_exit=300)
        for k, v in self.start:
            config.set(**{k: v})

        @log(message='x')
        def f(m):
            log.message(m) if False else None
        self.f = f

    def say(self, m):
        self.clock += 1
        a = self.clock
        if self.kind == 'block':
            with log(m):
                pass
        else:
            log(m)
        self.clock += 1
        self.calls[m] = (a, self.clock)

    def main(self):
        with calm():
            for i in range(self.before):
                self.say('m%d' % i)
        ts = []
        for w, n in enumerate(self.writers):
            def body(w=w, n=n):
                for i in range(n):
                    self.say('t%d%d' % (w, i))
            ts.append(thread(body))
        for j, (k, v) in enumerate(self.steps):
            config.set(**{k: v})
            self.say('s%d' % j)
        for t in ts:
            t.join()
        with calm():
            flush()
        return dict(items=list(self.rec.items), calls=self.calls, most=self.rec.max_running)

    def check(self, obs, s):
        out = []
        pos = {m: i for i, m in enumerate(obs['items'])}
        for a, (a0, a1) in obs['calls'].items():
            for b, (b0, b1) in obs['calls'].items():
                if a1 < b0 and a in pos and b in pos and pos[a] > pos[b]:
                    out.append('record %r was accepted before %r was logged, but handled after it: %r' % (a, b, obs['items']))
        if set(pos) != set(obs['calls']):
            out.append('handled %r, logged %r' % (sorted(pos), sorted(obs['calls'])))
        if self.one and obs['most'] > 1:
            out.append('one worker handled %d records at the same time' % obs['most'])
        return out[:4]


P1 = (('pool_size', 1),)


def scenarios():
    yield Order('one-worker', P1, (), (2, 1)), 2, 3
    yield Order('queue-change', P1, (('max_queue_size', 2),), (2,)), 2, 3
    yield Order('bounded', P1 + (('max_queue_size', 1),), (), (2, 1)), 1, 3
    yield Order('to-sync', P1, (('pool_size', 0),), (2,), one_at_a_time=False), 2, 3
    yield Order('to-async', (), (('pool_size', 1),), (2,), one_at_a_time=False), 1, 3
    yield Order('there-and-back', P1, (('pool_size', 0), ('pool_size', 1)), (2,), one_at_a_time=False), 1, 2
    yield Order('sync', (), (), (2, 2), one_at_a_time=False, trace=ALL), 1, 2
    yield Order('first', P1, (), (2, 2), before=0), 1, 2
    yield Order('blocks', P1, (('max_queue_size', 1),), (2,), kind='block'), 1, 2
    yield Order('slow', P1, (('max_queue_size', 1),), (3,), sleep=2), 1, 2
    yield Order('nested', P1, (('max_queue_size', 2),), (), before=2, nested=('m0',)), 2, 3
    yield Order('nested-slow', P1, (('max_queue_size', 2),), (), before=2, nested=('m0', 'm1'), sleep=2), 1, 2
    yield Order('nested-writer', P1, (('max_queue_size', 2),), (1,), before=1, nested=('m0', 't00')), 1, 2
    yield Order('nested-to-sync', P1, (('pool_size', 0),), (), before=2, nested=('m0',), one_at_a_time=False), 1, 3
    yield Order('timers', P1, (('max_queue_size', 1),), (2,), timeouts=True), 1, 2
    yield Order('wide', P1, (('max_queue_size', 1),), (2,), trace=ALL), 1, 2


def sync_case(c, case):
    """Sequential: which handlers, in which order, in which thread, before the call returns."""
    ops, styles, history = case
    # settings history that ends at pool_size 0
    for k, v in history:
        config.set(**{k: v})
        c.op()
    calls = []
    names = []

    def make(tag):
        def h(log_item):
            calls.append((tag, threading.get_ident(), log_item['message']))
        return h
    made = {}
    order = []
    for op, tag in ops:
        c.op()
        if op == 'add':
            if tag in order:
                continue
            made[tag] = make(tag)
            config.add_handlers(**{tag: made[tag]})
            order.append(tag)
        elif op == 'anon':
            t = tag + '*'
            if t in order:
                continue
            made[t] = make(t)
            config.add_handlers(made[t])
            order.append(t)
        elif op == 'del':
            if tag not in order:
                continue
            config.delete_handlers(tag)
            order.remove(tag)
        del calls[:]
        for style in styles:
            me = threading.get_ident()
            ran = []
            if style == 'log':
                log('q')
            elif style == 'fn':
                log(message='q')(lambda: ran.append(len(calls)))()
            elif style == 'raise':
                def boom():
                    ran.append(len(calls))
                    raise ValueError('q')
                try:
                    log(message='q')(boom)()
                except ValueError:
                    pass
            elif style == 'block':
                with log('q'):
                    ran.append(len(calls))
            elif style == 'level':
                log.info('q') if False else log('q', level=5)
            want = [(t, me, 'q') for t in order]
            c.eq(list(calls), want, 'handler calls when a %s event with the synchronous engine has ended' % style)
            if ran:
                c.eq(ran, [0], 'records written before the wrapped code ran')
            del calls[:]
        c.state(tuple(order))


def sync_cases(depth):
    ops = [('add', 'a'), ('add', 'b'), ('anon', 'c'), ('anon', 'd'), ('del', 'a'), ('del', 'b')]
    styles = ('log', 'fn', 'raise', 'block', 'level')
    for hist in ((), (('pool_size', 2), ('pool_size', 0)), (('pool_size', 1), ('max_queue_size', 3), ('max_queue_size', 0), ('pool_size', 0))):
        for d in range(1, depth + 1):
            for s in itertools.product(ops, repeat=d):
                yield (s, styles, hist)


def fifo_case(c, case):
    """One worker, one producer, handler durations and reloads: the order is exactly the order of the calls."""
    ops = case
    rec = []

    def h(item):
        time.sleep(0.3 * (hash(item['message']) % 3))
        rec.append(item['message'])
    config.add_handlers(h)
    config.set(time_quant=0.1, max_delay_before_exit=100)
    config.set(pool_size=1)
    want = []
    for op in ops:
        c.op()
        if op == 'log':
            m = 'm%d' % len(want)
            log(m)
            want.append(m)
        elif op == 'pause':
            time.sleep(1)
        else:
            try:
                config.set(**{op[0]: op[1]})
            except ValueError:
                pass
        c.state(len(rec), len(want))
    config.set(max_queue_size=0)
    config.set(pool_size=0)
    c.eq(rec, want, 'order of handling with at most one worker')


def fifo_cases(depth):
    ops = ['log', 'pause', ('pool_size', 0), ('pool_size', 1), ('max_queue_size', 1), ('max_queue_size', 0)]
    for d in range(2, depth + 1):
        for s in itertools.product(ops, repeat=d):
            if s.count('log') >= 2:
                yield s


def run(ctx):
    ctx.cases('sync-order', sync_cases(ctx.pick(4, 5)), sync_case)
    ctx.cases('fifo', fifo_cases(ctx.pick(5, 6)), fifo_case)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
