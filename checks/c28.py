"""C28: a class decorator logs exactly the chosen methods, and its arguments act as those of the function decorator."""
import functools
import itertools

from polog import config, field, log

from checks.common import handler

OUT = []
SEEN = ('message', 'level', 'function', 'class', 'auto', 'success', 'result', 'exception_type', 'exception_message', 'own', 'engine', 'glob')


def listen():
    OUT.clear()
    config.set(level=0)
    config.add_handlers(main=handler(lambda i: OUT.append(('main', {f: i.get(f) for f in SEEN if i.get(f) is not None}))))


def drive(aw):
    if hasattr(aw, 'send') and hasattr(aw, 'cr_await'):
        try:
            while True:
                aw.send(None)
        except StopIteration as e:
            return e.value
    return aw


def free(self=None, *a):
    return 'free'


class Callable:
    def __call__(self, *a):
        return 'called'


class Base:
    def inherited(self, *a):
        return 'inherited'

    @staticmethod
    def inherited_static(*a):
        return 'inherited_static'

    def shadowed(self, *a):
        return 'parent'


class Meta(type):
    def of_meta(cls):
        return 'of_meta'


def make():
    """A new class with every kind of member."""
    class Big(Base, metaclass=Meta):
        data = 5
        text = 'text'
        callable = Callable()
        function = free
        part = functools.partialmethod(free, 1)
        shadowed = None

        def __init__(self):
            self.instance = lambda: 'instance'

        def plain(self, *a):
            return 'plain'

        async def coroutine(self, *a):
            return 'coroutine'

        @staticmethod
        def static(*a):
            return 'static'

        @classmethod
        def of_class(cls, *a):
            return 'of_class'

        @staticmethod
        async def static_coroutine(*a):
            return 'static_coroutine'

        @classmethod
        async def class_coroutine(cls, *a):
            return 'class_coroutine'

        def _protected(self, *a):
            return '_protected'

        def __private(self, *a):
            return '__private'

        def tail__(self, *a):
            return 'tail__'

        def work_(self, *a):
            return 'work_'

        lam = lambda self, *a: 'lam'     # noqa

        @property
        def prop(self):
            return 'prop'

        @functools.cached_property
        def cached(self):
            return 'cached'

        def __call__(self, *a):
            return '__call__'

        def __len__(self):
            return 3

        def __getitem__(self, i):
            return '__getitem__'

        class Nested:
            def method(self):
                return 'nested'

    def odd(self, *a):
        return 'odd'
    odd.__name__ = '__odd'
    odd.__qualname__ = Big.__qualname__ + '.__odd'
    setattr(Big, '__odd', odd)          # not a dunder method: no underscores at the end
    return Big


# name -> (how it is called, what it gives, is it a method)
MEMBERS = {
    'plain': (lambda C, o: o.plain(), 'plain', True),
    'coroutine': (lambda C, o: drive(o.coroutine()), 'coroutine', True),
    'static': (lambda C, o: o.static(), 'static', True),
    'of_class': (lambda C, o: o.of_class(), 'of_class', True),
    'static_coroutine': (lambda C, o: drive(C.static_coroutine()), 'static_coroutine', True),
    'class_coroutine': (lambda C, o: drive(C.class_coroutine()), 'class_coroutine', True),
    '_protected': (lambda C, o: o._protected(), '_protected', True),
    '_Big__private': (lambda C, o: o._Big__private(), '__private', True),
    'tail__': (lambda C, o: o.tail__(), 'tail__', True),
    '__odd': (lambda C, o: getattr(o, '__odd')(), 'odd', True),
    'work_': (lambda C, o: o.work_(), 'work_', True),
    'lam': (lambda C, o: o.lam(), 'lam', True),
    'function': (lambda C, o: o.function(), 'free', True),
    'inherited': (lambda C, o: o.inherited(), 'inherited', True),
    'inherited_static': (lambda C, o: C.inherited_static(), 'inherited_static', True),
    'prop': (lambda C, o: o.prop, 'prop', False),
    'cached': (lambda C, o: o.cached, 'cached', False),
    'callable': (lambda C, o: o.callable(), 'called', False),
    'Nested': (lambda C, o: C.Nested().method(), 'nested', False),
    'data': (lambda C, o: (C.data, o.data), (5, 5), False),
    'text': (lambda C, o: o.text, 'text', False),
    'shadowed': (lambda C, o: o.shadowed, None, False),
    'instance': (lambda C, o: o.instance(), 'instance', None),
    '__call__': (lambda C, o: o(), '__call__', 'dunder'),
    '__len__': (lambda C, o: len(o), 3, 'dunder'),
    '__getitem__': (lambda C, o: o[0], '__getitem__', 'dunder'),
    'of_meta': (lambda C, o: C.of_meta(), 'of_meta', None),
}
FUNCTION = {'function': 'free', 'lam': '<lambda>', '_Big__private': '__private'}
CLASS = {'inherited': 'Base', 'inherited_static': 'Base', 'function': None}
FORMS = {
    'bare': lambda kw: log, 'empty': lambda kw: log(**kw), 'message': lambda kw: log('m', **kw), 'level': lambda kw: log(level=7, **kw),
    'dotted': lambda kw: log.lev(**kw), 'dotted-bare': lambda kw: log.lev, 'dotted-message': lambda kw: log.lev('m', **kw),
}


def members(c, spec):
    form, chosen, kind, twice = spec
    listen()
    config.levels(lev=7)
    C = make()
    before = dict(vars(C))
    kw = {}
    if chosen is not None:
        kw = dict(methods=dict(tuple=tuple, list=list)[kind](chosen))
    if twice == 'whole':
        log('first', level=3)(C)
    elif twice == 'some':
        log('first', level=3, methods=['plain', 'static', 'class_coroutine', 'inherited'])(C)
    D = FORMS[form](kw)(C)
    if twice == 1:
        D = FORMS[form](kw)(D)
    if D is not C:
        c.bad('the decorator returned another class')
    OUT.clear()
    o = C()
    c.eq(OUT, [], 'records when an instance is made')
    names = [n for n, (how, what, method) in MEMBERS.items() if method is True] if not chosen else list(chosen)
    c.state(form, tuple(sorted(names)))
    for n, (how, what, method) in MEMBERS.items():
        for again in (0, 1):
            OUT.clear()
            c.op()
            try:
                got = how(C, o)
            except Exception as e:
                c.bad('%s of a decorated class fails: %r', n, e)
                continue
            c.eq(got, what, 'what %s gives' % n)
            want = []
            if n in names and method in (True, 'dunder'):
                r = dict(auto=True, success=True, level=7 if form in ('level', 'dotted', 'dotted-bare', 'dotted-message') else 1, function=FUNCTION.get(n, n))
                cls = CLASS.get(n, 'Big')
                if cls:
                    r['class'] = cls
                if form in ('message', 'dotted-message'):
                    r['message'] = 'm'
                want = [('main', r)]
            c.eq([(h, {k: v for k, v in r.items() if k != 'result'}) for h, r in OUT], want, 'records of %s' % n)
    # What was not chosen is the same object as before, the parent is not changed.
    for n, v in before.items():
        if not isinstance(twice, str) and n not in names and n not in ('__dict__', '__weakref__') and vars(C).get(n) is not v:
            c.bad('the member %s that was not chosen has been replaced', n)
    OUT.clear()
    Base().inherited(), Base.inherited_static(), free()
    c.eq(OUT, [], 'records of the parent and of the function outside')
    for n in vars(C):
        if n not in before and n not in names and not isinstance(twice, str):
            c.bad('a new member %s', n)


def member_specs(thorough):
    for form in FORMS:
        for twice in (0, 1, 'whole', 'some'):
            yield form, None, 'tuple', twice
            yield form, (), 'tuple', twice
    names = [n for n, (h, w, m) in MEMBERS.items() if m in (True, 'dunder')]
    for form in FORMS:
        if 'bare' in form:
            continue
        for kind in ('tuple', 'list'):
            for n in names:
                yield form, (n,), kind, 0
                yield form, (n,), kind, 1
                if kind == 'list':
                    yield form, (n,), kind, 'whole'
                    yield form, (n,), kind, 'some'
    for n in range(2, 3 if not thorough else 4):
        for s in itertools.combinations(names, n):
            for twice in (0, 'whole', 'some'):
                yield 'message', s, 'list', twice
    for s in itertools.permutations(('plain', 'static', 'prop', '__call__'), 3):
        yield 'level', s, 'tuple', 0
    yield 'level', tuple(names), 'tuple', 0
    yield 'level', tuple(reversed(names)), 'list', 1


# -- the arguments ----------------------------------------------------------------------------------------------
class Sub(ValueError):
    pass


def own_handler(i):
    OUT.append(('own', {f: i.get(f) for f in SEEN if i.get(f) is not None}))


def branch_handler(i):
    OUT.append(('branch', {f: i.get(f) for f in SEEN if i.get(f) is not None}))


OPTIONS = {
    'message': [None, 'text', ''],
    'level': [None, 0, 5, 'lev', 'unknown'],
    'errors_level': [None, 0, 9, 'lev'],
    'handlers': [None, 'own', 'branch', 'own+branch', 'empty'],
    'extra_fields': [None, 'own', 'own+dots', 'glob', 'dots'],
    'extra_engine_fields': [None, 'own', 'own+dots'],
    'suppress': [None, 'all', 'value', 'key', 'value+key'],
}
OUTCOMES = ('return', 'value', 'sub', 'key')


def options(spec):
    kw = {}
    for name, i in spec.items():
        v = OPTIONS[name][i]
        if v is None or name == 'suppress':
            continue
        if name == 'handlers':
            v = {'own': [own_handler], 'branch': ['branch'], 'own+branch': [own_handler, 'branch'], 'empty': []}[v]
        elif name == 'extra_fields':
            f = field(lambda i: 'own field')
            v = {'own': {'own': f}, 'own+dots': [{'own': f}, ...], 'glob': {'glob': field(lambda i: 'local')}, 'dots': [...]}[v]
        elif name == 'extra_engine_fields':
            f = field(lambda i: 'own engine field')
            v = {'own': {'engine': f}, 'own+dots': [{'engine': f}, ...]}[v]
        kw[name] = v
    return kw


def decorator(spec):
    d = log(**options(spec))
    s = OPTIONS['suppress'][spec.get('suppress', 0)]
    if s is not None:
        d = d.suppress(*{'all': (), 'value': (ValueError,), 'key': (KeyError,), 'value+key': (ValueError, KeyError)}[s])
    return d


def arguments(c, case):
    """The same decorator on a function and on a class: the method and the function behave alike."""
    pairs, glevel, subclasses = case
    spec = dict(pairs)
    listen()
    config.levels(lev=6)
    config.add_handlers({'branch.leaf': handler(branch_handler)})
    config.add_fields(glob=field(lambda i: 'global'))
    config.set(level=glevel, default_level=3, default_error_level=4, suppress_exception_subclasses=subclasses)

    def act(what):
        if what == 'return':
            return 'given'
        raise dict(value=ValueError, sub=Sub, key=KeyError)[what]('text')

    def make_function():
        def same(what):
            return act(what)
        return same

    def make_coroutine():
        async def same(what):
            return act(what)
        return same

    def make_class():
        class C:
            def same(self, what):
                return act(what)

            @staticmethod
            def stat(what):
                return act(what)

            @classmethod
            def clas(cls, what):
                return act(what)

            async def coro(self, what):
                return act(what)
        return C
    f, g, C = decorator(spec)(make_function()), decorator(spec)(make_coroutine()), decorator(spec)(make_class())
    o = C()
    calls = {'function': f, 'coroutine function': lambda w: drive(g(w)), 'method': o.same, 'static method': o.stat, 'class method': o.clas, 'coroutine method': lambda w: drive(o.coro(w))}
    for outcome in OUTCOMES:
        results = {}
        for name, call in calls.items():
            OUT.clear()
            c.op()
            try:
                r = ('returned', call(outcome))
            except Exception as e:
                r = ('raised', type(e).__name__)
            for h, rec in OUT:
                rec.pop('function', None)
                rec.pop('class', None)
            results[name] = (r, [x for x in OUT])
        c.state(outcome, repr(results['function']))
        for name in calls:
            c.eq(results[name], results['function'], '%s: what a %s does (compared with a function)' % (outcome, name))


def argument_specs(thorough):
    names = list(OPTIONS)
    seen = set()
    size = 3 if thorough else 2
    for n in range(0, size + 1):
        for keys in itertools.combinations(names, n):
            for values in itertools.product(*[range(1, len(OPTIONS[k])) for k in keys]):
                for glevel in (0, 4, 7):
                    for sub in (True, False):
                        if not sub and 'suppress' not in keys:
                            continue
                        if not thorough and n == 2 and glevel == 7 and not {'level', 'errors_level'} & set(keys):
                            continue
                        yield tuple(zip(keys, values)), glevel, sub


# -- methods from the outside -------------------------------------------------------------------------------------
def later(c, spec):
    """A class decorated after its instances and subclasses exist; methods replaced or added afterwards are not logged."""
    order, deco = spec
    listen()

    class A:
        def m(self):
            return 'm'

        def n(self):
            return 'n'

    class B(A):
        def n(self):
            return 'B.n'
    a, b = A(), B()
    bound = a.m
    kw = dict(all={}, m=dict(methods=('m',)), mn=dict(methods=['m', 'n']))[deco]
    logged = {'A.m': False, 'A.n': False, 'B.n': False}
    for step in order:
        if step == 'decorate':
            log(level=2, **kw)(A)
            logged['A.m'] = True
            logged['A.n'] = deco != 'm'
        elif step == 'replace':
            A.m = lambda self: 'm'
            logged['A.m'] = False
        elif step == 'replace-sub':
            B.n = lambda self: 'B.n'
            logged['B.n'] = False
        for what, call in (('A.m', a.m), ('A.m', b.m), ('A.n', a.n), ('B.n', b.n), ('A.m', A().m), ('B.n', B().n)):
            OUT.clear()
            c.op()
            c.eq(call(), what[-1] if what != 'B.n' else 'B.n', 'what it returns')
            c.eq(len(OUT), int(logged[what]), 'records of %s after %s' % (what, order))
        OUT.clear()
        bound()
        c.eq(len(OUT), 0, 'records of a method taken before the decoration')


def run(ctx):
    ctx.cases('members', member_specs(ctx.thorough), members)
    ctx.cases('arguments', argument_specs(ctx.thorough), arguments)
    ctx.cases('later', [(o, d) for n in (1, 2, 3) for o in itertools.product(('decorate', 'replace', 'replace-sub'), repeat=n) for d in ('all', 'm', 'mn')], later)
