"""C31: the memory handler keeps exactly what was delivered since it was last cleaned."""
import itertools

from polog import config, log
from polog.handlers.memory.saver import memory_saver

from checks.common import P, Program, flush, handler, thread
from mc.sched import calm

OPS = ('log', 'error', 'call', 'direct', 'clean', 'again', 'low', 'keep', 'empty')


def texts(saver):
    return [x.get('message') for x in saver.all]


def agree(c, saver, what):
    """The newest record is the last one of all."""
    if saver.all:
        if saver.last is not saver.all[-1]:
            c.bad('%s: the last record is %r, but the newest of all is %r', what, saver.last, saver.all[-1])
    elif saver.last is not None:
        c.bad('%s: there are no records, but the last one is %r', what, saver.last)


def history(c, spec):
    ops, pool = spec
    saver = memory_saver()
    config.set(level=5, default_level=5, default_error_level=5, pool_size=pool)
    config.add_handlers(saver)
    seen = []
    config.add_handlers(handler(seen.append))
    want, kept, forgotten = [], [], []

    @log('called')
    def f(x):
        return x
    for n, op in enumerate(ops):
        what = 'step %d of %s' % (n, ops)
        text = 'record %d' % n
        delivered = len(seen)
        if op == 'log':
            log(text, number=n)
            want.append(text)
        elif op == 'error':
            log(text, exception=ValueError('e'))
            want.append(text)
        elif op == 'call':
            f(n)
            want.append('called')
        elif op == 'direct':
            item = {'message': text}
            saver(item)
            want.append(text)
            c.eq(saver.last is item, True, what + ': the very object that was given is kept')
        elif op == 'low':
            log(text, level=1)
        elif op == 'clean':
            if pool:
                flush()
                config.set(pool_size=pool)
            forgotten.append((saver.all, list(saver.all)))
            saver.clean()
            want = []
        elif op == 'again':
            if memory_saver() is not saver:
                c.bad('%s: another object', what)
        elif op == 'keep':
            if pool:
                flush()
                config.set(pool_size=pool)
            if saver.last is not None:
                kept.append((saver.last, saver.last.get('message')))
        elif op == 'empty':
            saver({})
            want.append(None)
        if pool:
            flush()
            config.set(pool_size=pool)
        c.op()
        c.eq(texts(saver), want, what)
        agree(c, saver, what)
        if len(seen) > delivered and saver.all and saver.last is not seen[-1]:
            c.bad('%s: the record kept is not the one that was delivered', what)
    for item, text in kept:
        c.eq(item.get('message'), text, 'a record that was read before')
    c.state(tuple(want), pool)


class Crowd(Program):
    """Threads make the handler, write to it and clean it at the same time."""
    trace = (P + 'handlers/memory', P + 'core/utils/read_only_singleton')

    def __init__(self, name, programs, ready):
        self.name, self.programs, self.ready = name, programs, ready

    def run(self, k):
        with calm():
            first = memory_saver() if self.ready else None
            if first is not None:
                first({'message': 'before'})
        got = []

        def work(n, program):
            saver = memory_saver() if not self.ready else first
            for i, ch in enumerate(program):
                if ch == 'w':
                    saver({'message': (n, i)})
                elif ch == 'c':
                    saver.clean()
                elif ch == 'm':
                    saver = memory_saver()
            got.append(saver)
        threads = [thread(work, n, p) for n, p in enumerate(self.programs[1:], 1)]
        work(0, self.programs[0])
        for t in threads:
            t.join()
        if len(set(map(id, got))) != 1 or memory_saver() is not got[0]:
            k.bad('there are %d memory handlers', len(set(map(id, got + [memory_saver()]))))
        saver = got[0]
        agree(k, saver, 'at the end')
        left = texts(saver)
        k.observe(tuple(left))
        cleans = sum(p.count('c') for p in self.programs)
        mine = {n: [(n, i) for i, ch in enumerate(p) if ch == 'w'] for n, p in enumerate(self.programs)}
        if not cleans:
            k.eq(sorted(map(str, left)), sorted(map(str, ['before'] * bool(self.ready) + [x for xs in mine.values() for x in xs])), 'records')
        for n, xs in mine.items():
            kept = [x for x in left if x in xs]
            if kept != xs[len(xs) - len(kept):]:
                k.bad('of the records %s of one thread these were kept: %s', xs, kept)
            # what a thread wrote after its own clean was not there to be forgotten, unless somebody else cleaned too
            p = self.programs[n]
            if 'c' in p and cleans == 1:
                k.eq([x for x in left if x in xs and x[1] > p.index('c')], [x for x in xs if x[1] > p.index('c')], 'records written after the only clean')
                if any(x in left for x in xs if x[1] < p.index('c')) or 'before' in left:
                    k.bad('a record from before the clean was kept: %s', left)


def run(ctx):
    def histories():
        for n in range(1, ctx.pick(5, 6)):
            for ops in itertools.product(OPS, repeat=n):
                yield ops, 0
                if n <= ctx.pick(3, 4):
                    yield ops, 1
    ctx.cases('histories', histories(), history)
    for name, programs, ready in (
            ('made-by-two', ('w', 'w'), False), ('made-twice', ('wmw', 'mw'), False), ('made-and-cleaned', ('wcw', 'w'), False), ('made-by-three', ('w', 'w', 'w'), False),
            ('written', ('ww', 'ww'), True), ('written-and-cleaned', ('wcw', 'ww'), True), ('cleaned-by-two', ('wcw', 'wcw'), True), ('three', ('w', 'wc', 'w'), True)):
        ctx.explore(Crowd(name, programs, ready), 2, 3)
