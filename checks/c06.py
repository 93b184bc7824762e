"""C06: a logging decorator is transparent."""
import asyncio
import functools
import inspect
import itertools

from polog import config, field, log, unlog

from checks.common import Recorder, flush


class Weird:
    """Nothing can be asked of this object."""
    def _no(self, *a):
        raise RuntimeError('do not touch')
    __str__ = __repr__ = __eq__ = __bool__ = __len__ = __iter__ = __hash__ = __format__ = _no


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError('no text')
    __repr__ = __str__


class Frozen(Exception):
    def __setattr__(self, k, v):
        raise AttributeError(k)


class Slots(Exception):
    __slots__ = ()


class Ask(Exception):
    def __getattr__(self, name):
        raise RuntimeError('no attribute %s' % name)


class Str(str):
    def __str__(self):
        raise RuntimeError('x')


VALUES = {
    'none': lambda: None, 'int': lambda: 5, 'str': lambda: 'text', 'list': lambda: [1, [2]], 'weird': Weird,
    'exc': lambda: ValueError('as a value'), 'huge': lambda: 10 ** 5000, 'surr': lambda: '\udc80', 'strsub': lambda: Str('q'),
    'nan': lambda: float('nan'), 'cls': lambda: Weird, 'gen': lambda: iter(()), 'false': lambda: False, 'bytes': lambda: b'\xff',
}
ERRORS = {
    'value': lambda: ValueError('v'), 'badstr': lambda: BadStr(), 'frozen': lambda: Frozen('f'), 'slots': lambda: Slots(1), 'ask': lambda: Ask(1),
    'key': lambda: KeyError(Weird()), 'empty': lambda: Exception(), 'stop': lambda: StopIteration(3),
    'group': lambda: ExceptionGroup('g', [ValueError(1)]), 'os': lambda: OSError(2, 'x'), 'uni': lambda: UnicodeDecodeError('utf8', b'a', 0, 1, 'r'),
    'rec': lambda: RecursionError('r'), 'assert': lambda: AssertionError(),
    'exit': lambda: SystemExit(3), 'kbd': lambda: KeyboardInterrupt(), 'genexit': lambda: GeneratorExit(), 'cancel': lambda: asyncio.CancelledError(),
}
CALLS = {
    'none': ((), ()), 'pos': (('weird', 'int'), ()), 'kw': ((), (('a', 'weird'), ('b', 'str'))), 'mix': (('list',), (('x', 'huge'), )),
    'names': ((), (('func', 'int'), ('message', 'str'), ('level', 'weird'), ('args', 'list'), ('kwargs', 'none'), ('self_', 'cls'))),
    'odd': (('exc', 'surr', 'strsub', 'nan', 'gen'), (('full', 'false'), ('exc', 'bytes'))),
}
DECOS = {
    'bare': lambda x: log(x), 'call': lambda x: log()(x), 'msg': lambda x: log('m', level=3)(x),
    'kw': lambda x: log(message='m', errors_level=9)(x), 'dot': lambda x: log.high(x), 'dotcall': lambda x: log.high('m')(x),
    'unknown': lambda x: log.nosuchlevel(x), 'badlevel': lambda x: log(level='nosuch', errors_level='nosuch2')(x),
    'twice': lambda x: log('outer')(log('inner')(x)), 'unlog': lambda x: unlog(x), 'unlogfull': lambda x: unlog(full=False)(x),
    'both': lambda x: log(unlog(x)), 'both2': lambda x: unlog(log(x)), 'neg': lambda x: (-log)(x),
    'suppr': lambda x: log('m').suppress(ZeroDivisionError)(x), 'hand': lambda x: log(handlers=['h'])(x),
    'fields': lambda x: log(extra_fields={'q': field(lambda item: 1 / 0)}, extra_engine_fields=[{'w': field(lambda item: 1)}, ...])(x),
}
SETTINGS = {
    'plain': {}, 'high': {'level': 100}, 'nodedup': {'deduplicate_errors': False}, 'silent': {'silent_internal_exceptions': True},
    'nocut': {'traceback_cutting': False}, 'supp': {'suppress_by_default': True}, 'pool': {'pool_size': 2}, 'notfull': {'full_unlog': False},
}
FORMS = ('func', 'coro', 'method', 'static', 'classm', 'gen', 'agen', 'partial', 'object', 'lambda')
CLASSFORMS = ('c-method', 'c-static', 'c-classm', 'c-coro', 'c-inherit', 'c-inherit-static', 'c-inherit-classm', 'c-gen', 'c-acoro-classm')


class Probe:
    def __init__(self, outcome, value):
        self.outcome, self.value = outcome, value
        self.calls = []

    def run(self, args, kwargs):
        self.calls.append((args, kwargs))
        if self.outcome == 'raise':
            raise self.value
        return self.value


def build(form, deco, p):
    """-> (callable to call, how, extra leading objects the body must see)"""
    if form in ('func', 'lambda'):
        if form == 'lambda':
            f = lambda *a, **k: p.run(a, k)      # noqa
        else:
            def f(*a, **k):
                """doc"""
                return p.run(a, k)
        g = deco(f)
        return g, 'sync', (), f
    if form == 'coro':
        async def f(*a, **k):
            """doc"""
            await asyncio.sleep(0)
            return p.run(a, k)
        return deco(f), 'async', (), f
    if form == 'gen':
        def f(*a, **k):
            yield p.run(a, k)
        return deco(f), 'gen', (), f
    if form == 'agen':
        async def f(*a, **k):
            yield p.run(a, k)
        return deco(f), 'agen', (), f
    if form == 'partial':
        def base(first, *a, **k):
            return p.run(a, k)
        f = functools.partial(base, 1)
        return deco(f), 'sync', (), None
    if form == 'object':
        class O:
            def __call__(self, *a, **k):
                return p.run(a, k)
        return deco(O()), 'sync', (), None

    def own(*a, **k):
        return p.run(a, k)

    async def aown(*a, **k):
        await asyncio.sleep(0)
        return p.run(a, k)

    def gown(*a, **k):
        yield p.run(a, k)
    if form in ('method', 'static', 'classm'):
        if form == 'static':
            class A:
                m = staticmethod(deco(own))
            return A().m, 'sync', (), None
        if form == 'classm':
            class A:
                m = classmethod(deco(own))
            return A().m, 'sync', (A,), None

        class A:
            m = deco(own)
        a = A()
        return a.m, 'sync', (a,), None
    kind = form[2:]
    if kind.startswith('inherit'):
        class B:
            pass
        B.m = {'inherit': own, 'inherit-static': staticmethod(own), 'inherit-classm': classmethod(own)}[kind]

        class A(B):
            pass
        raw = inspect.getattr_static(B, 'm')
        A2 = deco(A)
        a = A2()
        if inspect.getattr_static(B, 'm') is not raw:
            raise AssertionError('decorating the subclass replaced the method of the parent')
        return a.m, 'sync', {'inherit': (a,), 'inherit-static': (), 'inherit-classm': (A2,)}[kind], None
    body = {'method': own, 'static': staticmethod(own), 'classm': classmethod(own), 'coro': aown, 'gen': gown, 'acoro-classm': classmethod(aown)}[kind]

    class A:
        m = body
        attr = 5

        class Inner:
            pass
    inner = A.Inner
    A2 = deco(A)
    if A2 is not A or A.Inner is not inner or A.attr != 5:
        raise AssertionError('decorating the class changed the class itself or its attributes')
    a = A()
    lead = {'method': (a,), 'static': (), 'classm': (A,), 'coro': (a,), 'gen': (a,), 'acoro-classm': (A,)}[kind]
    return a.m, {'coro': 'async', 'acoro-classm': 'async', 'gen': 'gen'}.get(kind, 'sync'), lead, None


def same(xs, ys):
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def case(c, spec):
    form, dname, outcome, vname, cname, sname, times = spec
    config.levels(high=7)
    if SETTINGS[sname]:
        config.set(**SETTINGS[sname])
    rec = Recorder(('auto', 'success'))
    config.add_handlers(h=rec)
    value = (ERRORS if outcome == 'raise' else VALUES)[vname]()
    p = Probe(outcome, value)
    try:
        f, how, lead, plain = build(form, DECOS[dname], p)
    except AssertionError as e:
        c.bad('%s', e)
        return
    except Exception as e:
        c.bad('decorating raised %r', type(e))
        return
    if plain is not None:
        if f.__name__ != plain.__name__ or f.__doc__ != plain.__doc__ or inspect.iscoroutinefunction(f) != inspect.iscoroutinefunction(plain):
            c.bad('the decorated function does not look like the original one (name, doc or kind)')
    a, k = CALLS[cname]
    args = [VALUES[x]() for x in a]
    kwargs = {n: VALUES[x]() for n, x in k}
    for n in range(times):
        c.op()
        got = err = None
        try:
            if how == 'sync':
                got = f(*args, **kwargs)
            elif how == 'async':
                got = drive(f(*args, **kwargs))
            elif how == 'gen':
                g = f(*args, **kwargs)
                if p.calls[n:]:
                    c.bad('the body of a generator ran before the first next()')
                got = next(g)
            elif how == 'agen':
                got = drive(f(*args, **kwargs).__anext__())
        except BaseException as e:       # noqa
            err = e
        if len(p.calls) != n + 1:
            c.bad('the wrapped code ran %d times in %d calls', len(p.calls), n + 1)
            break
        seen_a, seen_k = p.calls[-1]
        if not same(seen_a, tuple(lead) + tuple(args)):
            c.bad('the positional arguments changed')
        if list(seen_k) != list(kwargs) or not same(list(seen_k.values()), list(kwargs.values())):
            c.bad('the named arguments changed')
        if outcome == 'raise':
            want_same = not (vname == 'stop' and how != 'sync')
            if want_same and err is not value:
                c.bad('the exception is another object: %s', type(err))
            elif err is None:
                c.bad('the exception was swallowed')
        else:
            if err is not None:
                c.bad('the call raised %s: %s', type(err), safe(err))
            elif got is not value:
                c.bad('the result is another object')
    if SETTINGS[sname].get('pool_size'):
        flush()
    c.state(spec[:3], sname, tuple(rec.items))


def safe(e):
    try:
        return str(e)
    except Exception:
        return '?'


def drive(aw):
    """Drive a coroutine to its end without an event loop of its own (bare yields only)."""
    try:
        while True:
            aw.send(None)
    except StopIteration as e:
        return e.value


def specs(thorough):
    outcomes = [('return', v) for v in VALUES] + [('raise', e) for e in ERRORS]
    out = []
    seen = set()

    def add(*s):
        form, d = s[0], s[1]
        if form.startswith('c-') and d in ('hand', 'fields'):
            return
        if s not in seen:
            seen.add(s)
            out.append(s)
    forms = FORMS + CLASSFORMS
    # every form x decorator x outcome, with one setting; then every form x outcome x setting; then every call shape
    for f, d, (o, v) in itertools.product(forms, DECOS, outcomes):
        if not thorough and v not in ('weird', 'none', 'value', 'badstr', 'frozen', 'exit', 'ask') and d not in ('bare', 'msg'):
            continue
        add(f, d, o, v, 'mix', 'plain', 2)
    for f, (o, v), s in itertools.product(forms, outcomes, SETTINGS):
        if not thorough and v not in ('weird', 'int', 'value', 'badstr', 'kbd'):
            continue
        for d in (DECOS if thorough else ('msg', 'both')):
            add(f, d, o, v, 'pos', s, 1)
    for f, d, cn, (o, v) in itertools.product(forms, DECOS, CALLS, (('return', 'weird'), ('raise', 'badstr'))):
        for s in (SETTINGS if thorough else ('plain',)):
            add(f, d, o, v, cn, s, 1)
    return out


# -- suppression that was asked for -----------------------------------------------------------------------------
class Sub(ValueError):
    pass


Twin = type('ValueError', (Exception,), {})      # another class of the same name
SUPP = {'none': None, 'all': (), 'value': (ValueError,), 'sub': (Sub,), 'two': (KeyError, ValueError), 'base': (Exception,), 'again': 'again', 'junk': (KeyboardInterrupt, 'x', 5), 'mixed': (5, KeyError)}
RAISED = {'twin': Twin, 'value': ValueError, 'sub': Sub, 'key': KeyError, 'exc': Exception, 'kbd': KeyboardInterrupt}


def suppress_case(c, spec):
    sname, rname, subclasses, coro, level, cls = spec
    rec = Recorder(('success', 'exception_type'))
    config.add_handlers(rec)
    config.set(suppress_exception_subclasses=subclasses, level=level)
    e = RAISED[rname]('x')
    deco = log('m')
    kinds = SUPP[sname]
    if sname in ('junk', 'mixed'):
        config.set(silent_internal_exceptions=True)
    if kinds == 'again':
        deco = deco.suppress(Sub).suppress(KeyError)
        kinds = (Sub, KeyError)
    elif kinds is not None:
        deco = deco.suppress(*kinds)
        kinds = kinds and (tuple(k for k in kinds if isinstance(k, type) and issubclass(k, Exception)) or None)
    if coro:
        async def m(*a):
            raise e
    else:
        def m(*a):
            raise e
    if cls:
        class A:
            pass
        A.m = m
        f = deco(A)().m
    else:
        f = deco(m)
    err = None
    got = 'nothing'
    c.op()
    try:
        got = drive(f()) if coro else f()
    except BaseException as x:    # noqa
        err = x
    if not isinstance(e, Exception):
        want = False
    elif kinds is None:
        want = False
    elif kinds == ():
        want = True
    elif subclasses:
        want = isinstance(e, kinds)
    else:
        want = type(e) in kinds
    if want:
        c.eq((err, got), (None, None), 'an exception whose suppression was requested')
    elif err is not e:
        c.bad('an exception whose suppression was not requested did not reach the caller as it was: %r', err)
    wanted = [(False, type(e).__name__)] if isinstance(e, Exception) and level <= 2 else []
    c.eq(rec.items, wanted, 'records')


def run(ctx):
    ctx.cases('calls', specs(ctx.thorough), case, managed=True)
    ctx.cases('suppression', itertools.product(SUPP, RAISED, (True, False), (False, True), (0, 50), (False, True)), suppress_case, managed=False)

