"""C30: with traceback cutting a logging decorator leaves no trace in tracebacks; without it only its own frames are added."""
import dataclasses
import itertools

from polog import config, log, unlog

from checks.common import Program, handler, thread
from mc.sched import calm

OUT = []
POLOG = '/polog/'


@dataclasses.dataclass(frozen=True)
class Frozen(Exception):
    x: int = 1


class BadStr(Exception):
    def __str__(self):
        raise ValueError


class Own(Exception):
    """Has an opinion about its attributes."""
    def __setattr__(self, name, value):
        raise TypeError('no attributes')


READY = ValueError('made beforehand')


def frames(tb):
    out = []
    while tb is not None:
        co = tb.tb_frame.f_code
        out.append((co.co_filename, co.co_name, tb.tb_lineno))
        tb = tb.tb_next
    return out


def chain(e, depth=0):
    """Everything a user can see of an exception: its frames and those of its causes and contexts."""
    if e is None or depth > 6:
        return None
    return (type(e).__name__, frames(e.__traceback__), chain(e.__cause__, depth + 1), chain(e.__context__, depth + 1), e.__suppress_context__)


def without_polog(x):
    if x is None:
        return None
    name, fr, cause, context, s = x
    return (name, [f for f in fr if POLOG not in f[0]], without_polog(cause), without_polog(context), s)


LEAVES = ('raise', 'c', 'args', 'frozen', 'badstr', 'own', 'chained', 'implicit', 'ready', 'deep', 'none', 'twice')


def leaf(kind, twice=False):
    if kind == 'raise':
        raise ValueError('v')
    elif kind == 'c':
        return int('not a number')
    elif kind == 'frozen':
        raise Frozen()
    elif kind == 'badstr':
        raise BadStr()
    elif kind == 'own':
        raise Own()
    elif kind == 'chained':
        try:
            {}['k']
        except KeyError as e:
            raise ValueError('v') from e
    elif kind == 'implicit':
        try:
            {}['k']
        except KeyError:
            raise ValueError('v')
    elif kind == 'none':
        try:
            {}['k']
        except KeyError:
            raise ValueError('v') from None
    elif kind == 'ready':
        raise READY
    elif kind == 'deep':
        return deep(3)
    elif kind == 'twice':
        try:
            raise READY
        except ValueError:
            pass
        raise READY


def deep(n):
    if n:
        return deep(n - 1)
    raise ValueError('deep')


NODES = ('pass', 'reraise', 'raise-e', 'from', 'context', 'finally', 'other')


def node(kind, nxt):
    if kind == 'pass':
        return nxt()
    if kind == 'reraise':
        try:
            return nxt()
        except Exception:
            raise
    if kind == 'raise-e':
        try:
            return nxt()
        except Exception as e:
            raise e
    if kind == 'from':
        try:
            return nxt()
        except Exception as e:
            raise KeyError('new') from e
    if kind == 'context':
        try:
            return nxt()
        except Exception:
            raise KeyError('new')
    if kind == 'finally':
        try:
            return nxt()
        finally:
            try:
                int('x')
            except ValueError:
                pass
    if kind == 'other':
        try:
            {}['a']
        except KeyError:
            return nxt()


async def anode(kind, nxt):
    if kind == 'pass':
        return await nxt()
    if kind == 'reraise':
        try:
            return await nxt()
        except Exception:
            raise
    if kind == 'raise-e':
        try:
            return await nxt()
        except Exception as e:
            raise e
    if kind == 'from':
        try:
            return await nxt()
        except Exception as e:
            raise KeyError('new') from e
    if kind == 'context':
        try:
            return await nxt()
        except Exception:
            raise KeyError('new')
    if kind == 'finally':
        try:
            return await nxt()
        finally:
            try:
                int('x')
            except ValueError:
                pass
    if kind == 'other':
        try:
            {}['a']
        except KeyError:
            return await nxt()


DECOS = {'no': lambda f: f, 'log': log, 'filtered': lambda f: log(level=0, errors_level=0)(f), 'message': lambda f: log('m')(f), 'suppress-other': lambda f: log('m').suppress(ZeroDivisionError)(f),
         'handlers': lambda f: log(handlers=[])(f), 'stack': lambda f: log(level=2)(log(level=3)(f)), 'class': None}


def build(form, deco, kind, nxt):
    """-> a callable of one required argument that does what the node says."""
    if form == 'coro':
        async def body(x):
            return await anode(kind, nxt)
    else:
        def body(x):
            return node(kind, nxt)
    if form in ('func', 'coro'):
        return DECOS[deco](body)

    class C:
        if form == 'method':
            def body(self, x):
                return node(kind, nxt)
        elif form == 'static':
            @staticmethod
            def body(x):
                return node(kind, nxt)
        elif form == 'classm':
            @classmethod
            def body(cls, x):
                return node(kind, nxt)
    if deco == 'class':
        log(C)
    elif form == 'method':
        C.body = DECOS[deco](vars(C)['body'])
    elif form == 'static':
        C.body = staticmethod(DECOS[deco](vars(C)['body'].__func__))
    else:
        C.body = classmethod(DECOS[deco](vars(C)['body'].__func__))
    return C().body


def program(nodes, leaf_kind, decorated):
    """nodes: (form, deco, kind) from the outermost to the innermost."""
    is_async = any(n[0] == 'coro' for n in nodes)
    wrong = leaf_kind == 'args'
    f = None
    for form, deco, kind in reversed(nodes):
        if is_async:
            if f is None:
                async def nxt():
                    return leaf(leaf_kind)
            else:
                async def nxt(f=f, bad=wrong):
                    if bad:
                        r = f()
                    else:
                        r = f(1)
                    return (await r) if hasattr(r, 'cr_await') else r
        else:
            if f is None:
                def nxt():
                    return leaf(leaf_kind)
            else:
                def nxt(f=f, bad=wrong):
                    return f() if bad else f(1)
        if f is not None and wrong:
            wrong = False
        f = build(form, deco if decorated else 'no', kind, nxt)
    return f, wrong


def drive(aw):
    try:
        while True:
            aw.send(None)
    except StopIteration as e:
        return e.value


def observe(f, wrong):
    READY.__traceback__ = READY.__context__ = READY.__cause__ = None
    vars(READY).clear()
    try:
        r = f() if wrong else f(1)
        if hasattr(r, 'cr_await'):
            r = drive(r)
        return 'returned', r
    except Exception as e:
        return chain(e)


def case(c, spec):
    nodes, leaf_kind, cutting, pool = spec
    OUT.clear()
    config.add_handlers(handler(lambda i: OUT.append(i.get('traceback'))))
    config.set(level=1, pool_size=pool, traceback_cutting=cutting)
    plain = observe(*program(nodes, leaf_kind, False))
    for again in (0, 1):
        c.op()
        got = observe(*program(nodes, leaf_kind, True))
        if cutting:
            c.eq(got, plain, 'the traceback')
        else:
            c.eq(without_polog(got), plain, 'the traceback without the frames of the logger')
    c.state(repr(plain))


def specs(thorough):
    forms = ('func', 'coro', 'method', 'static', 'classm')    # wrong arguments of a decorated coroutine function are noticed when it is awaited
    decos = list(DECOS)

    def ok(n):
        form, deco, kind = n
        if deco == 'class' and form in ('func', 'coro'):
            return False
        return True
    for cutting in (True, False):
        for pool in (0, 1):
            for n in itertools.product(forms, decos, NODES):
                if not ok(n) or (pool and not thorough and n[1] not in ('log', 'class')):
                    continue
                for l in LEAVES:
                    if l != 'args' or n[0] != 'coro':
                        yield (n,), l, cutting, pool
    two = [n for n in itertools.product(('func', 'coro', 'method'), ('no', 'log', 'filtered', 'class'), NODES) if ok(n)]
    for a, b in itertools.product(two, two):
        if a[1] == b[1] == 'no':
            continue
        for l in (LEAVES if thorough else ('raise', 'args', 'ready')):
            if (l == 'args' and b[0] == 'coro') or (not thorough and l == 'ready' and a[2] != b[2]):
                continue
            yield (a, b), l, True, 0
            if thorough:
                yield (a, b), l, False, 0
    three = [(f, d, k) for f, d, k in itertools.product(('func', 'coro'), ('no', 'log'), ('pass', 'raise-e', 'context') if not thorough else NODES)]
    for t in itertools.product(three, repeat=3):
        if not thorough and len({x[0] for x in t}) > 1:
            continue
        yield t, 'raise', True, 0


def recursion(c, spec):
    """One decorated function calling itself; the exception crosses it many times."""
    depth, where, cutting, switch = spec
    config.add_handlers(handler(lambda i: None))
    config.set(level=0, traceback_cutting=cutting)

    def make(deco):
        def f(n):
            if n == 0:
                raise ValueError('bottom')
            if n in where:
                try:
                    return call(n - 1)
                except ValueError:
                    raise
            return call(n - 1)
        call = log(f) if deco else f
        return call
    out = []
    for deco in (False, True):
        if deco and switch:
            config.set(traceback_cutting=not cutting)
            config.set(traceback_cutting=cutting)
        try:
            make(deco)(depth)
        except ValueError as e:
            out.append(chain(e))
    c.op(depth)
    c.eq(out[1] if cutting else without_polog(out[1]), out[0], 'the traceback of a recursion of depth %d' % depth)


class Threads(Program):
    """Several threads let exceptions pass the same decorated function; one of them may toggle the setting before."""
    trace = ('/repo/polog/core/utils', '/repo/polog/loggers/auto')

    def __init__(self, name, n, filtered):
        self.name, self.n, self.filtered = name, n, filtered

    def prepare(self):
        config.add_handlers(handler(lambda i: None))
        config.set(level=0)

    def run(self, k):
        def make():
            def f(n):
                if n == 0:
                    raise ValueError('x')
                return g(n - 1)

            def g(n):
                if n == 0:
                    raise KeyError('x')
                return f(n)
            return f, g
        f, g = make()
        got = {}

        def go(i, fn):
            try:
                fn(i)
            except Exception as e:
                got[i] = chain(e)
        with calm():
            for i in range(self.n):
                go(i, f)
            want = dict(got)
            got.clear()
            f2 = log(f)
        ts = [thread(go, i, f2) for i in range(self.n)]
        for t in ts:
            t.join()
        k.eq(got, want, 'the tracebacks of concurrent failures')
        k.observe(sorted(got))


def run(ctx):
    ctx.cases('chains', specs(ctx.thorough), case)
    ctx.cases('recursion', [(d, w, cut, s) for d in (0, 1, 2, 3, 5, 40) for w in ((), (1,), (1, 2), (3,)) for cut in (True, False) for s in (0, 1)], recursion)
    for n in (2, 3):
        ctx.explore(Threads('threads-%d' % n, n, False), 1, 2)
