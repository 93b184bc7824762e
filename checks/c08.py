"""C08: one exception passing through several decorators is recorded exactly once."""
import copy
import itertools
import pickle

from polog import config, log, unlog

from checks import volume
from checks.common import P, Program, flush, handler, thread
from mc.sched import calm

# What one layer of the call stack is. Threshold is 5.
KINDS = ('hi', 'lo', 'plain', 'convert', 'ban', 'ban-off', 'block', 'class', 'class-lo', 'edge', 'catch', 'chain', 'supp')


class Frozen(Exception):
    def __setattr__(self, k, v):
        raise AttributeError(k)


class Eq(Exception):
    """All instances are equal to each other, which must not make them one event."""
    def __eq__(self, other):
        return isinstance(other, Eq)

    def __hash__(self):
        return 1


class Sub(ValueError):
    pass


ERRORS = {'value': lambda: ValueError('same text'), 'frozen': lambda: Frozen('f'), 'eq': lambda: Eq('e'), 'sub': lambda: Sub('s')}


class Model:
    def __init__(self, dedup, threshold):
        self.dedup = dedup
        self.threshold = threshold
        self.records = []

    def decorator(self, name, level, seen, banned):
        """An exception leaves a decorator. seen: has it been recorded before."""
        if banned or level < self.threshold or (seen and self.dedup):
            return seen
        self.records.append(name)
        return True

    def up(self, stack):
        """The exception travels from the innermost layer (last) to the first; -> it reaches the caller."""
        state = {'seen': False, 'alive': True}
        for i in reversed(range(len(stack))):
            kind = stack[i]
            if not state['alive']:
                level = {'hi': 9, 'class': 9, 'supp': 9, 'lo': 0, 'class-lo': 0, 'edge': self.threshold, 'block': 20}.get(kind, -1)
                if level >= self.threshold and not any(x == 'ban' for x in stack[:i]):
                    self.records.append('%s%d ok' % (kind, i))
                continue
            banned = any(x == 'ban' for x in stack[:i])
            name = '%s%d' % (kind, i)
            if kind in ('hi', 'class'):
                state['seen'] = self.decorator(name, 9, state['seen'], banned)
            elif kind in ('lo', 'class-lo'):
                state['seen'] = self.decorator(name, 3, state['seen'], banned)
            elif kind == 'edge':
                state['seen'] = self.decorator(name, self.threshold, state['seen'], banned)
            elif kind == 'supp':
                state['seen'] = self.decorator(name, 9, state['seen'], banned)
                state['alive'] = False
            elif kind == 'convert':
                state['seen'] = False
            elif kind == 'catch':
                state['alive'] = False
            elif kind == 'block':
                if not banned:
                    self.records.append(name)
        return state['alive']


def build(stack, error, coro, threshold, i=0):
    """-> a function without arguments"""
    if i == len(stack):
        if coro:
            async def bottom():
                raise error()
        else:
            def bottom():
                raise error()
        return bottom
    inner = build(stack, error, coro, threshold, i + 1)
    kind = stack[i]
    name = '%s%d' % (kind, i)
    low = dict(level=0, errors_level=3)
    if coro:
        async def body(*a):
            if kind == 'convert':
                try:
                    return await inner()
                except Exception as e:
                    raise error() from e
            if kind == 'catch':
                try:
                    return await inner()
                except Exception:
                    return None
            if kind == 'chain':
                try:
                    return await inner()
                except Exception as e:
                    raise e
            if kind == 'block':
                with log(name, level=20):
                    return await inner()
            return await inner()
    else:
        def body(*a):
            if kind == 'convert':
                try:
                    return inner()
                except Exception as e:
                    raise error() from e
            if kind == 'catch':
                try:
                    return inner()
                except Exception:
                    return None
            if kind == 'chain':
                try:
                    return inner()
                except Exception as e:
                    raise e
            if kind == 'block':
                with log(name, level=20):
                    return inner()
            return inner()
    if kind == 'hi':
        return log(name, level=9, errors_level=9)(body)
    if kind == 'supp':
        return log(name, level=9, errors_level=9).suppress()(body)
    if kind == 'lo':
        return log(name, **low)(body)
    if kind == 'edge':
        return log(name, level=threshold, errors_level=threshold)(body)
    if kind == 'ban':
        return unlog(full=True)(body)
    if kind == 'ban-off':
        return unlog(full=False)(body)
    if kind in ('class', 'class-lo'):
        class K:
            pass
        K.m = body
        K = log(name, **(low if kind == 'class-lo' else dict(level=9, errors_level=9)))(K)
        return K().m
    return body


def drive(aw):
    try:
        while True:
            aw.send(None)
    except StopIteration as e:
        return e.value


def case(c, spec):
    stack, dedup, ename, coro, pool, threshold = spec
    out = []
    config.set(level=threshold, deduplicate_errors=dedup)
    if pool:
        config.set(pool_size=pool)
    config.add_handlers(handler(lambda i: out.append(i['message'] + (' ok' if i['success'] else ''))))
    made = []

    def error():
        made.append(ERRORS[ename]())
        return made[-1]
    f = build(stack, error, coro, threshold)
    m = Model(dedup, threshold)
    for n in range(2):
        c.op(len(stack))
        err = None
        try:
            drive(f()) if coro else f()
        except Exception as e:
            err = e
        alive = m.up(stack)
        if alive and err is not made[-1]:
            c.bad('the exception did not reach the caller: %r', err)
        if not alive and err is not None:
            c.bad('an exception that was caught reached the caller: %r', err)
    if pool:
        flush()
    c.state(tuple(out))
    c.eq(sorted(out) if pool > 1 else out, sorted(m.records) if pool > 1 else m.records, 'records of the stack %s' % (stack,))


COPIES = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda e: pickle.loads(pickle.dumps(e))}


# The second exception is another event, also while the first one is alive, and also if it is equal to it.
def pair(c, spec):
    ename, how, dedup = spec
    out = []
    config.set(deduplicate_errors=dedup)
    config.add_handlers(handler(lambda i: out.append(i['message'])))
    kept = []

    @log('inner')
    def inner(e):
        raise e

    @log('outer')
    def outer():
        e1 = ERRORS[ename]()
        kept.append(e1)
        try:
            inner(e1)
        except Exception as e:
            e2 = COPIES[how](e) if how in COPIES else ERRORS[ename]()
            kept.append(e2)
            if how == 'from':
                raise e2 from e
            if how == 'none':
                raise e2 from None
            if how == 'implicit' or how in COPIES:
                raise e2
            if how == 'deep':
                inner(e2)
            raise e
    try:
        outer()
    except Exception:
        pass
    c.op(3)
    want = {'deep': ['inner', 'inner'] + ([] if dedup else ['outer'])}.get(how, ['inner', 'outer'] if how != 'same' else ['inner'] + ([] if dedup else ['outer']))
    c.eq(out, want, 'records')


# The settings change between the layers.
def switch(c, spec):
    inner_level, first, second, mid_level, mid_dedup = spec
    out = []
    config.set(level=first, deduplicate_errors=second)
    config.add_handlers(handler(lambda i: out.append(i['message'])))

    @log('inner', errors_level=inner_level)
    def inner():
        raise ValueError

    @log('outer', errors_level=7)
    def outer():
        try:
            inner()
        finally:
            config.set(level=mid_level, deduplicate_errors=mid_dedup)
    try:
        outer()
    except ValueError:
        pass
    c.op(2)
    want = ['inner'] if inner_level >= first else []
    if 7 >= mid_level and not (want and mid_dedup):
        want.append('outer')
    c.eq(out, want, 'records')


class Threads(Program):
    """Different exceptions in different threads, through shared decorated functions."""
    trace = (P + 'loggers/auto', )

    def __init__(self, dedup):
        self.dedup = dedup
        self.name = 'threads-dedup-%s' % dedup

    def run(self, k):
        with calm():
            out = []
            config.set(deduplicate_errors=self.dedup)
            config.add_handlers(handler(lambda i: out.append((i['message'], i['exception_message']))))

            @log('inner')
            def inner(x):
                raise ValueError(x)

            @log('outer')
            def outer(x):
                inner(x)

            def go(x):
                try:
                    outer(x)
                except ValueError:
                    pass
        t = thread(go, 'a')
        go('b')
        t.join()
        want = sorted([(m, x) for m in (('inner',) if self.dedup else ('inner', 'outer')) for x in 'ab'])
        k.observe(tuple(out))
        k.eq(sorted(out), want, 'records')


def run(ctx):
    def specs():
        for d in range(1, ctx.pick(4, 5)):
            kinds = KINDS
            for stack in itertools.product(kinds, repeat=d):
                for dedup in (True, False):
                    yield stack, dedup, 'value', False, 0, 5
        for d in range(1, ctx.pick(3, 4)):
            for stack in itertools.product(KINDS, repeat=d):
                for dedup in (True, False):
                    for e in ERRORS:
                        for coro in (False, True):
                            for pool, th in ((0, 5), (1, 5), (2, 5), (0, 0), (0, 15)):
                                if (e, coro, pool, th) != ('value', False, 0, 5):
                                    yield stack, dedup, e, coro, pool, th
    ctx.cases('stacks', specs(), case)
    ctx.cases('two exceptions', itertools.product(ERRORS, ('from', 'none', 'implicit', 'same', 'deep'), (True, False)), pair, managed=False)
    ctx.cases('copies of an exception', [x for x in itertools.product(ERRORS, COPIES, (True, False)) if x[0] != 'frozen'], pair, managed=False)
    ctx.cases('settings change between layers', itertools.product((3, 6, 9), (0, 5, 8), (True, False), (0, 5, 8), (True, False)), switch, managed=False)
    for d in (True, False):
        ctx.explore(Threads(d), 1, 2)
    volume.run(ctx, 'C08')
