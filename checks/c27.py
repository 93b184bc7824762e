"""C27: one use of the universal function has exactly one effect: a record, a decorated object or a logged block."""
import asyncio
import gc
import itertools
import sys
import threading

from polog import config, log

from mc import boot
from mc.sched import calm
from checks import volume
from checks.common import P, Program, flush, handler, thread

OUT = []
FIELDS = ('message', 'level', 'auto', 'success', 'exception_type', 'note')


def listen(pool=0):
    OUT.clear()
    config.set(level=0, pool_size=pool)
    config.levels(lev=7)
    config.add_fields(note=NoNote())
    config.delete_fields('note')
    config.add_handlers(handler(lambda i: OUT.append({f: i.get(f) for f in FIELDS if i.get(f) is not None})))


class NoNote:
    def get_data(self, i):
        return None


def records(pool):
    if pool:
        flush()
        config.set(pool_size=pool)
    got, OUT[:] = list(OUT), []
    return got


# how the object is made, and the fields it carries
MAKE = {
    'text': (lambda: log('t'), {'message': 't'}),
    'named': (lambda: log(message='t'), {'message': 't'}),
    'empty': (lambda: log(), {}),
    'blank': (lambda: log(''), {'message': ''}),
    'level': (lambda: log('t', level=5), {'message': 't', 'level': 5}),
    'dotted': (lambda: log.lev('t'), {'message': 't', 'level': 7}),
    'dotted-level': (lambda: log.lev('t', level=4), {'message': 't', 'level': 4}),
    'suppress': (lambda: log('t').suppress(), {'message': 't'}),
    'suppress-key': (lambda: log('t').suppress(KeyError), {'message': 't'}),
    'dotted-suppress': (lambda: log.lev('t').suppress(ValueError), {'message': 't', 'level': 7}),
    'held': (lambda: hold(log('t')), {'message': 't'}),
}
SUPPRESSES = {'suppress': (Exception,), 'suppress-key': (KeyError,), 'dotted-suppress': (ValueError,)}
HELD = []


def hold(x):
    HELD.append(x)
    return x


OPS = ('function', 'coroutine', 'class', 'block', 'block-fails', 'block-edit', 'block-nested', 'repr', 'alias', 'bad-call', 'cycle')


def record(fields, **kw):
    r = dict(fields)
    r.setdefault('level', 1)
    r.update(kw)
    return r


def drive(aw):
    try:
        while True:
            aw.send(None)
    except StopIteration as e:
        return e.value


def life(c, spec):
    """A sequence of uses of one object, then its end. Model: it may be used once; unused it becomes a record when it is released."""
    how, ops, end, pool = spec
    listen(pool)
    make, fields = MAKE[how]
    x = make()
    suppresses = SUPPRESSES.get(how, ())
    used = False
    unsure = False
    others = []
    logged = []          # (callable, expected record)
    c.eq(records(pool), [], 'records while the object has not been used')
    for op in ops:
        c.op()
        want = []
        error = None
        try:
            if op == 'function':
                def f():
                    return 'r'
                g = x(f)
                logged.append((lambda g=g: g(), 'r'))
            elif op == 'coroutine':
                async def f():
                    return 'r'
                g = x(f)
                logged.append((lambda g=g: drive(g()), 'r'))
            elif op == 'class':
                class C:
                    def f(self):
                        return 'r'
                g = x(C)
                logged.append((lambda g=g: g().f(), 'r'))
            elif op in ('block', 'block-edit', 'block-nested'):
                with x as y:
                    if y is not x:
                        c.bad('the block gives another object')
                    if op == 'block-edit':
                        x(note='edited')
                    if op == 'block-nested':
                        log('inner')
                    c.eq(records(pool), [record({'message': 'inner'}, auto=False)] if op == 'block-nested' else [], 'records before the block has ended')
            elif op == 'block-fails':
                with x:
                    raise ValueError('in the block')
            elif op == 'repr':
                str(x), repr(x)
            elif op == 'alias':
                others.append(x)
            elif op == 'cycle':
                cell = [x]
                cell.append(cell)
                others.append(None)
                cell = None
            elif op == 'bad-call':
                x(5)
        except Exception as e:
            error = e
        is_use = op in ('function', 'coroutine', 'class', 'block', 'block-fails', 'block-edit', 'block-nested')
        if used == 'block' and op in ('function', 'coroutine', 'class', 'bad-call'):
            # Calling a finished block is not defined, but it must not write anything.
            if op in ('function', 'coroutine', 'class') and logged and error is None:
                logged.pop()
        elif is_use and used:
            if error is None:
                c.bad('%s: the object could be used twice', op)
                if logged and op in ('function', 'coroutine', 'class'):
                    logged.pop()
            elif isinstance(error, ValueError) and str(error) == 'in the block':
                c.bad('%s: the block was entered although the object had been used', op)
        elif is_use:
            used = 'block' if op.startswith('block') else 'decorator'
            if op == 'block-fails':
                if (error is None) != any(issubclass(ValueError, s) for s in suppresses):
                    c.bad('the exception of the block: %r', error)
                want = [record(fields, auto=False, success=False, exception_type='ValueError', level=fields.get('level', 2))]
            elif error is not None:
                c.bad('%s failed: %r', op, error)
            elif op.startswith('block'):
                want = [record(fields, auto=False, success=True, **({'note': 'edited'} if op == 'block-edit' else {}))]
        elif op == 'bad-call':
            if error is None:
                c.bad('%s was accepted', op)
            unsure = not used       # whether a record is still written after a wrong use is not defined
            used = used or 'bad'
        elif error is not None:
            c.bad('%s failed: %r', op, error)
        if op == 'bad-call' and unsure:
            records(pool)
        else:
            c.eq(records(pool), want, 'records after %s (the object was %s before)' % (op, used))
        e = error = None
    # The end: the last reference goes.
    y = g = f = C = None
    HELD.clear()
    if others:
        x = None
        if end != 'gc' and 'cycle' not in ops:
            c.eq(records(pool), [], 'records while another reference exists')
        others.clear()
    if end == 'thread':
        box = [x]
        x = None

        def release():
            box.clear()
        thread(release).join()
    elif end == 'exit':
        boot.run_exit()
        want = [] if used or others else None
        if x is not None and not used:
            c.eq(OUT[:], [record(fields, auto=False)], 'records when the program ends while the object is alive')
            OUT.clear()
            used = 'exit'
        x = None
    elif end == 'exception':
        try:
            raise KeyError(x)
        except KeyError:
            x = None
    x = None
    gc.collect()
    got = records(pool) if end != 'exit' else OUT[:]
    OUT.clear()
    if unsure:
        if len(got) > 1:
            c.bad('%d records of one object', len(got))
    else:
        c.eq(got, [] if used else [record(fields, auto=False)], 'records after the object was released (it was %s)' % (used or 'not used'))
    if end != 'exit':
        for call, result in logged:
            for _ in range(2):
                c.eq(call(), result, 'the decorated object')
                c.eq(records(pool), [record(fields, auto=True, success=True)], 'records of a call of the decorated object')
    c.state(how, used, end)


def lives(thorough):
    ends = ('drop', 'thread', 'exit', 'exception', 'gc')
    for how in MAKE:
        for pool in (0, 1):
            for end in ends:
                for n in (0, 1, 2):
                    for ops in itertools.product(OPS, repeat=n):
                        if n == 2 and not thorough and (pool or end not in ('drop', 'exit') or how not in ('text', 'dotted', 'suppress', 'held')):
                            continue
                        yield how, ops, end, pool
    for ops in itertools.product(OPS if thorough else ('function', 'block', 'block-fails', 'alias', 'cycle', 'class'), repeat=3):
        yield 'text', ops, 'drop', 0


# -- where the call stands --------------------------------------------------------------------------------------
class Magic:
    """Logs from unusual places."""
    def __init__(self, depth=0):
        self.depth = depth

    def __str__(self):
        log('from str')
        return 'magic'

    def __del__(self):
        log('from del')

    def __eq__(self, other):
        log('from eq')
        return True
    __hash__ = None


def generator():
    log('g1')
    yield 1
    log('g2')
    yield 2
    log('g3')


async def agen():
    log('a1')
    yield 1
    log('a2')


def f_args(*args, **kw):
    OUT.append('in the function')


def default(x=None):
    log('in default')


PLACES = {
    'statement': (lambda: log('a'), ['a']),
    'sequence': (lambda: (log('a'), None)[1] or (log('b'), None)[1], ['a', 'b']),
    'or': (lambda: (log('a') and None) or log('b') and None, ['a', 'b']),
    'comprehension': (lambda: [None for i in 'abc' if log(i) is None], ['a', 'b', 'c']),
    'list': (lambda: len([log('a'), log('b')]), ['a', 'b']),
    'argument': (lambda: f_args(log('a'), log('b')), ['in the function', 'a', 'b']),
    'named-argument': (lambda: f_args(x=log('a')), ['in the function', 'a']),
    'default': (lambda: default(), ['in default']),
    'fstring': (lambda: f'{log("a")}', ['a']),
    'str': (lambda: str(Magic()) and None, ['from str', 'from del']),
    'eq': (lambda: Magic() == 1 and None, ['from eq', 'from del']),
    'generator': (lambda: list(generator()) and None, ['g1', 'g2', 'g3']),
    'unfinished-generator': (lambda: next(generator()) and None, ['g1']),
    'lambda': (lambda: (lambda: log('a'))() and None, ['a']),
    'sorted': (lambda: sorted([3, 1, 2], key=lambda i: (log(str(i)), i)[1]) and None, ['3', '1', '2']),
    'nested': (lambda: log(str((log('inner'), 'outer')[1])) and None, ['inner', 'outer']),
    'many': (lambda: [log(str(i)) for i in range(5)] and None, ['0', '1', '2', '3', '4']),
    'dict': (lambda: {1: log('a')} and None, ['a']),
    'walrus': (lambda: [(y := log('a')), (y := log('b'))] and None, ['a', 'b']),
}


def place(c, spec):
    name, pool = spec
    listen(pool)
    seen = []
    config.add_handlers(second=handler(lambda i: seen.append(i['message'])))
    fn, want = PLACES[name]
    for again in (0, 1):
        c.op()
        fn()
        gc.collect()
        if pool:
            flush()
            config.set(pool_size=pool)
        got = [x if isinstance(x, str) else x['message'] for x in OUT]
        if name in ('list', 'argument', 'many', 'dict', 'walrus', 'named-argument') or pool:
            c.eq(sorted(got), sorted(want), 'records of a call as %s' % name)
        else:
            c.eq(got, want, 'records of a call as %s' % name)
        c.eq(sorted(seen), sorted(w for w in want if w != 'in the function'), 'records of a call as %s for the second handler' % name)
        OUT.clear()
        seen.clear()


# -- objects crossing threads -----------------------------------------------------------------------------------
class Handover(Program):
    """The last reference is dropped by one of several threads; objects are made and released concurrently."""
    trace = (P + 'loggers/finalizer', P + 'loggers/router', P + 'loggers/partial', P + 'loggers/handle')

    def __init__(self, name, uses, pool=0):
        self.name, self.uses, self.pool = name, uses, pool

    def prepare(self):
        listen(self.pool)

    def run(self, k):
        with calm():
            log('first')
            flush()
            OUT.clear()

            def g():
                return 'r'
        made = {}

        def go(i, use):
            lev = log.lev if i % 2 else log
            if use == 'drop':
                lev('m%d' % i)
            elif use == 'decorate':
                made[i] = lev('m%d' % i)(lambda: 'r')
            elif use == 'block':
                with lev('m%d' % i) as b:
                    b(note='n%d' % i)
            elif use == 'shared-block':
                with log:
                    pass
            elif use == 'fails':
                try:
                    with lev('m%d' % i).suppress(KeyError):
                        raise ValueError('v%d' % i)
                except ValueError as e:
                    k.eq(str(e), 'v%d' % i, 'the exception')
        ts = [thread(go, i, u) for i, u in enumerate(self.uses)]
        for t in ts:
            t.join()
        with calm():
            gc.collect()
            flush()
            got = sorted((r.get('message') or '', r['level'], r.get('success'), r.get('note')) for r in OUT)
            want = []
            for i, u in enumerate(self.uses):
                lev = 7 if i % 2 else 1
                if u == 'drop':
                    want.append(('m%d' % i, lev, None, None))
                elif u == 'block':
                    want.append(('m%d' % i, lev, True, 'n%d' % i))
                elif u == 'shared-block':
                    want.append(('', 1, True, None))
                elif u == 'fails':
                    want.append(('m%d' % i, 7 if i % 2 else 2, False, None))
            k.eq([tuple(map(str, x)) for x in got], sorted(tuple(map(str, x)) for x in want), 'records')
            OUT.clear()
            for i, f in sorted(made.items()):
                f()
                k.eq([(r.get('message'), r['level'], r['auto']) for r in OUT], [('m%d' % i, 7 if i % 2 else 1, True)], 'records of the decorated function %d' % i)
                OUT.clear()
            k.observe(len(got))


class LastReference(Program):
    """Two threads drop their references to the same unused object."""
    trace = (P + 'loggers/finalizer', '/verif/checks/c27.py')

    def __init__(self, name, pool=0):
        self.name, self.pool = name, pool

    def prepare(self):
        listen(self.pool)

    def run(self, k):
        with calm():
            log('first')
            flush()
            OUT.clear()
        x = log('shared')
        a, b = [x], [x]
        x = None

        def drop(box):
            box[0] = None
            box.append(1)
        ts = [thread(drop, a), thread(drop, b)]
        for t in ts:
            t.join()
        with calm():
            flush()
            k.eq([r['message'] for r in OUT], ['shared'], 'records of an object released by two threads')


def at_exit(c, spec):
    """Exit callbacks of the program use the logger too: the object does the same until the very end."""
    uses, first, pool = spec
    listen(pool)
    want = []
    if first == 'used':
        log('before')
        want.append(record({'message': 'before'}, auto=False))
    alive = []

    def callback(how, use):
        make, fields = MAKE[how]
        if use == 'unused':
            make()
            HELD.clear()
            want.append(record(fields, auto=False))
        elif use == 'block':
            with make():
                pass
            HELD.clear()
            want.append(record(fields, auto=False, success=True))
        elif use == 'function':
            f = make()(lambda: None)
            HELD.clear()
            if not pool:
                c.eq(len(OUT), len(want), 'records before the decorated function is called')
            f()
            want.append(record(fields, auto=True, success=True))
        elif use == 'release':
            alive.clear()
        c.op()
        if not pool:
            c.eq(OUT[:], want, 'records after %s of %s in an exit callback' % (use, how))
    if ('text', 'release') in uses:
        alive.append(log('t'))
    for how, use in uses:
        boot.exit_callbacks.insert(0, (callback, (how, use), {}))
    if alive:
        want.append(record({'message': 't'}, auto=False))     # by the end of the program: the object was alive then
    if first == 'later':
        log('after')
        want.insert(0, record({'message': 'after'}, auto=False))
    boot.run_exit()
    c.eq(OUT[:], want, 'records at the end')
    c.state(uses, first, pool)


def exit_cases():
    one = [(how, use) for how in MAKE for use in ('unused', 'block', 'function')]
    few = [('text', 'unused'), ('dotted', 'block'), ('level', 'function'), ('text', 'release')]
    for uses in [(x,) for x in one] + [(a, b) for a in few for b in few if a != b] + [tuple(few)]:
        for first in ('used', 'later', 'never'):
            for pool in (0, 1):
                yield uses, first, pool


def run(ctx):
    ctx.cases('life', lives(ctx.thorough), life)
    ctx.cases('at exit', exit_cases(), at_exit)
    ctx.cases('places', [(p, pool) for p in PLACES for pool in (0, 1)], place)
    kinds = ('drop', 'decorate', 'block', 'shared-block', 'fails')
    for uses in itertools.combinations_with_replacement(kinds, 2):
        ctx.explore(Handover('threads-' + '+'.join(uses), uses), 1, 2)
    if ctx.thorough:
        for uses in itertools.combinations_with_replacement(kinds, 3):
            ctx.explore(Handover('threads-' + '+'.join(uses), uses), 1, 1)
    ctx.explore(LastReference('last-reference'), 2, 3)
    volume.run(ctx, 'C27')
