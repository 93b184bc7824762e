"""C29: what can never work is refused when it is registered, without any effect; what is accepted works."""
import functools
import itertools
import os

from polog import config, field, file_writer, log, message, handle_log
from polog.handlers.abstract.base import BaseHandler
from polog import SMTP_sender

OUT = []


def sink(tag):
    def h(i):
        OUT.append((tag, i.get('message')))
        return 'from %s' % tag
    return h


# -- callables of every shape: name -> (how it is made, can it be called with one record?) --------------------------
def shapes(tag):
    out = sink(tag)

    def plain(i):
        return out(i)

    def annotated(record: object) -> None:
        return out(record)

    def posonly(i, /):
        return out(i)

    class Obj:
        def __call__(self, i):
            return out(i)

        def method(self, i):
            return out(i)

        @classmethod
        def cm(cls, i):
            return out(i)

        @staticmethod
        def sm(i):
            return out(i)

    class Cls:
        def __init__(self, i):
            out(i)

    @functools.wraps(plain)
    def wrapped(*a, **k):
        return plain(*a, **k)

    def two(a, b):
        return out(a)

    class BadObj:
        def __call__(self):
            pass

    class BadObj2:
        def __call__(self, a, b):
            pass

    class NoCls:
        pass

    def vararg(*a):
        pass

    def kwarg(**k):
        pass

    def mixed(a, *b):
        pass

    def mixed2(a, **k):
        pass

    def konly(*, a):
        pass

    def konly2(a, *, b):
        pass

    def default(a, b=1):
        pass

    def konly_default(a, *, b=1):
        pass

    @functools.wraps(two)
    def wrapped_two(*a):
        pass
    return {
        'function': (plain, True), 'lambda': (lambda i: out(i), True), 'annotated': (annotated, True), 'positional-only': (posonly, True), 'object': (Obj(), True), 'method': (Obj().method, True),
        'class-method': (Obj.cm, True), 'static-method': (Obj.sm, True), 'class': (Cls, True), 'partial': (functools.partial(lambda a, i: out(i), 1), True), 'wrapped': (wrapped, True),
        'none-args': (lambda: None, False), 'two': (two, False), 'three': (lambda a, b, c: None, False), 'bad-object': (BadObj(), False), 'bad-object-2': (BadObj2(), False), 'class-without': (NoCls, False),
        'args': (vararg, False), 'kwargs': (kwarg, False), 'arg+args': (mixed, False), 'arg+kwargs': (mixed2, False), 'keyword-only': (konly, False), 'arg+keyword-only': (konly2, False), 'default': (default, False),
        'arg+keyword-default': (konly_default, False), 'wrapped-two': (wrapped_two, False), 'unbound': (Obj.method, False), 'partial-none': (functools.partial(plain, 1), False), 'partial-two': (functools.partial(lambda a, b, c: None, 1), False),
        'number': (5, False), 'zero': (0, False), 'text': ('text', False), 'list': ([], False), 'tuple': ((plain,), False), 'true': (True, False), 'bytes': (b'x', False), 'object-plain': (object(), False), 'none': (None, False), 'ellipsis': (..., False),
        'builtin': (pow, False),
    }


NAMES = sorted(shapes('x'))


class Custom(BaseHandler):
    def get_content(self, i):
        return i.get('message')

    def do(self, content):
        if content == 'fail':
            raise ValueError
        OUT.append(('custom', content))


class Getter:
    def __init__(self, fn):
        self.get_data = fn


def names_of_handlers():
    return sorted(n.get_full_name() for n in config.get_handlers().walker.bfs() if n.value is not None)


def snapshot():
    return (len(config.get_handlers()), sorted(config.get_in_place_fields()), sorted(config.get_engine_fields()), sorted(config.get_all_fields()))


SITES = ('positional', 'named', 'dict', 'deep', 'local', 'local-tuple', 'extractor', 'converter', 'get_data', 'get_data-engine', 'filter', 'alt', 'file-filter', 'file-alt', 'formatter', 'text', 'subject')
NONE_OK = ('converter', 'filter', 'alt', 'file-filter', 'file-alt', 'formatter', 'text', 'subject')
# A mapping and a text mean something else there.
ELSEWHERE = {'local': ('text',), 'local-tuple': ('text',)}


def use(site, h, path):
    """Registers h; returns a function that shows that it works and what must be seen then."""
    if site == 'positional':
        config.add_handlers(h)
    elif site == 'named':
        config.add_handlers(new=h)
    elif site == 'dict':
        config.add_handlers({'new': h})
    elif site == 'deep':
        config.add_handlers({'new.deep.path': h})
    elif site in ('local', 'local-tuple'):
        d = log(handlers=[h] if site == 'local' else (h,))(lambda: None)
        return lambda: d()
    elif site in ('extractor', 'converter'):
        f = field(h) if site == 'extractor' else field(lambda i: 'raw', converter=h)
        config.add_fields(extra=f)
    elif site == 'get_data':
        config.add_fields(extra=Getter(h))
    elif site == 'get_data-engine':
        config.add_engine_fields(extra=Getter(h))
    elif site in ('filter', 'alt'):
        config.add_handlers(new=Custom(**{site: h}))
    elif site in ('file-filter', 'file-alt', 'formatter'):
        config.add_handlers(new=file_writer(path, **{site.split('-')[-1]: h}))
    elif site == 'text':
        SMTP_sender('a', 'b', 'c', 'd', text_assembler=h)
        return None
    elif site == 'subject':
        SMTP_sender('a', 'b', 'c', 'd', subject_assembler=h)
        return None
    return lambda: (log('probe'), None)


def shape(c, spec):
    site, first, second, silent = spec
    OUT.clear()
    config.set(level=0, silent_internal_exceptions=silent)
    base = sink('base')
    config.add_handlers(base=base)
    seen = []
    config.add_handlers(extra=lambda i: seen.append(i.get('extra')))
    path = os.path.join(os.environ['MC_DIR'], 'log')
    registered = False
    for k, name in enumerate((first, second)):
        if name is None:
            continue
        h, good = shapes('h%d' % k)[name]
        if name == 'none' and site in NONE_OK:
            good = 'default'
        if name in ELSEWHERE.get(site, ()):
            return
        before = snapshot()
        c.op()
        try:
            works = use(site, h, path)
            error = None
        except Exception as e:
            error = e
        taken = registered and site in ('named', 'dict', 'deep', 'filter', 'alt', 'file-filter', 'file-alt', 'formatter')
        if not good or taken:
            if error is None:
                c.bad('%s was accepted as %s', name if not taken else 'a second handler under the same name', site)
                return
            c.eq(snapshot(), before, 'the registries after %s was refused as %s' % (name, site))
        else:
            if error is not None:
                c.bad('%s was refused as %s: %r', name, site, error)
                return
            registered = True
            if works is None:
                continue
            OUT.clear()
            seen.clear()
            works()
            mine = [x for x in OUT if x[0].startswith('h')]
            if good is True and name != 'class':
                if site in ('positional', 'named', 'dict', 'deep', 'local', 'local-tuple', 'filter', 'file-filter', 'formatter', 'extractor', 'get_data', 'get_data-engine'):
                    if not mine:
                        c.bad('%s was accepted as %s but is not used', name, site)
                if site in ('extractor', 'get_data', 'get_data-engine'):
                    c.eq(seen, ['from h%d' % k], 'the value of the field')
                if site == 'alt':
                    OUT.clear()
                    log('fail')
                    c.eq([x for x in OUT if x[0].startswith('h')], [('h%d' % k, 'fail')], 'the fallback')
        # Whatever happened, the others work as before.
        OUT.clear()
        log('after')
        if ('base', 'after') not in OUT or OUT.count(('base', 'after')) != 1:
            c.bad('the other handler saw %r after %s', OUT, name)
        if not registered and any(x[0] != 'base' for x in OUT):
            c.bad('the refused object was used: %r', OUT)
    c.state(site, first, second)


def shape_specs(thorough):
    for site in SITES:
        for a in NAMES:
            for silent in (True, False):
                yield site, a, None, silent
            for b in (NAMES if thorough else ('function', 'two', 'none')):
                yield site, a, b, True
            yield site, 'function', a, True


# -- names --------------------------------------------------------------------------------------------------------
BUILT_IN = ('level', 'auto', 'time', 'service_name', 'success', 'function', 'class', 'module', 'message', 'exception_type', 'exception_message', 'traceback', 'input_variables', 'local_variables', 'result', 'time_of_work')
FREE = ('a', 'user', 'ip', 'a1', 'A', 'x_', 'levels', 'times', 'exceptions', 'имя', 'request_id')
NOT_NAMES = ('', ' ', 'a b', '1a', 'a-b', 'a.b', '_a', '__a', '_', 'a\n', '.')


def field_name(c, spec):
    kind, name, again = spec
    OUT.clear()
    config.set(level=0)
    seen = []
    config.add_handlers(lambda i: seen.append((i.get(name), i.get('other'))))
    add, delete, get = {'place': (config.add_fields, config.delete_fields, config.get_in_place_fields), 'engine': (config.add_engine_fields, config.delete_engine_fields, config.get_engine_fields)}[kind]
    add(other=field(lambda i: 'o'))
    bad = name in BUILT_IN or name in NOT_NAMES
    f = field(lambda i: 'value')
    for k in range(again):
        c.op()
        try:
            add(**{name: f})
            error = None
        except Exception as e:
            error = e
        if bad:
            if error is None:
                c.bad('the name %r was accepted', name)
                return
            if name in get():
                c.bad('the refused field %r is registered', name)
        elif error is not None:
            c.bad('the name %r was refused: %r', name, error)
            return
        log('x')
        v, o = seen[-1]
        if not bad:
            c.eq(v, 'value', 'the field %r' % name)
        elif v == 'value':
            c.bad('the refused field %r is extracted', name)
        c.eq(o, 'o', 'the other field')
    if not bad:
        delete(name)
        log('x')
        c.eq(seen[-1], (None, 'o'), 'fields after %r was deleted' % name)
    try:
        delete(name)
        c.bad('a field that is not there could be deleted')
    except Exception:
        pass
    c.state(kind, bad)


def field_values(c, spec):
    kind, label = spec
    config.set(level=0)
    add, get = {'place': (config.add_fields, config.get_in_place_fields), 'engine': (config.add_engine_fields, config.get_engine_fields)}[kind]

    class Data:
        get_data = 5
    bad = {'none': None, 'number': 5, 'function': lambda i: 1, 'text': 'x', 'class': field, 'data': Data(), 'dict': {}, 'dots': ...}[label]
    seen = []
    config.add_handlers(lambda i: seen.append(i.get('bad')))
    before = get()
    c.op()
    try:
        add(bad=bad)
        if label != 'class':
            c.bad('%s was accepted as a field', label)
    except Exception:
        c.eq(get(), before, 'fields after a refusal')
        log('x')
        c.eq(seen, [None], 'the refused field')
        add(bad=field(lambda i: 'good'))
        log('x')
        c.eq(seen[-1:], ['good'], 'the field after a refusal and a good registration')


LEVEL_BAD_NAMES = ('', ' ', 'a b', '1a', 'a-b', 'a.b', '_a', '__a', '__class__', '_', 'message', 'suppress', '__call__', '__enter__')
LEVEL_BAD_VALUES = (-1, -100, 1.0, 5.5, '5', None, [], (), b'1', 1j)
LEVEL_GOOD = (0, 1, 5, 50, 10 ** 9)


def level_name(c, spec):
    name, value, redefine = spec
    config.set(level=0, silent_internal_exceptions=True)
    seen = []
    config.add_handlers(lambda i: seen.append((i['message'], i['level'])))
    config.levels(other=33)
    if redefine and name not in LEVEL_BAD_NAMES:
        config.levels(**{name: 77})
    bad = name in LEVEL_BAD_NAMES or not (type(value) is int and value >= 0)
    c.op()
    try:
        config.levels(**{name: value})
        error = None
    except Exception as e:
        error = e
    if bad and error is None:
        c.bad('the level %r=%r was accepted', name, value)
        return
    if not bad and error is not None:
        c.bad('the level %r=%r was refused: %r', name, value, error)
        return
    log('o', level='other')
    c.eq(seen[-1], ('o', 33), 'a record of another level')
    if name not in LEVEL_BAD_NAMES:
        want = (77 if redefine else None) if bad else value
        n = len(seen)
        if want is None:
            # A name that does not exist: the record goes with the default level.
            log('n', level=name)
            c.eq(seen[n:], [('n', 1)], 'a record with the refused level name')
        else:
            log('n', level=name)
            getattr(log, name)('d')
            getattr(handle_log, name)('h')
            c.eq(seen[n:], [('n', want), ('d', want), ('h', want)], 'records with the level name')
    # The functions that share the name space still work.
    n = len(seen)
    with log('block').suppress(KeyError):
        raise KeyError

    @log
    def f():
        message('edited')
    f()
    c.eq([m for m, l in seen[n:]], ['block', 'edited'], 'records after the attempt')
    c.state(name in LEVEL_BAD_NAMES, repr(value), redefine)


# -- several things in one call --------------------------------------------------------------------------------------
def several(c, spec):
    """One wrong thing among good ones: the call is refused wherever it stands, and the wrong thing is never registered."""
    site, goods = spec
    OUT.clear()
    config.set(level=0, silent_internal_exceptions=True)
    config.add_handlers(base=sink('base'))
    seen = []
    config.add_handlers(look=lambda i: seen.append([i.get('n%d' % k) for k in range(len(goods))]))
    got = []
    config.add_handlers(levels=lambda i: got.append(i['level']))
    names = ['n%d' % k for k in range(len(goods))]
    good_handlers = [sink('n%d' % k) for k in range(len(goods))]
    handlers = [h if ok else (lambda a, b: OUT.append(('bad', a))) for h, ok in zip(good_handlers, goods)]

    def valued(n):
        return field(lambda i: n)
    fields = {n: valued(n) if ok else 5 for n, ok in zip(names, goods)}
    levels = {n: 40 + k if ok else -1 - k for k, (n, ok) in enumerate(zip(names, goods))}
    call = {
        'positional': lambda: config.add_handlers(*handlers), 'named': lambda: config.add_handlers(**dict(zip(names, handlers))), 'dict': lambda: config.add_handlers(dict(zip(names, handlers))),
        'dicts': lambda: config.add_handlers(*[{n: h} for n, h in zip(names, handlers)]), 'fields': lambda: config.add_fields(**fields), 'engine': lambda: config.add_engine_fields(**fields),
        'levels': lambda: config.levels(**levels),
    }[site]
    try:
        call()
        error = None
    except Exception as e:    # noqa
        error = e
    if all(goods) and error is not None:
        c.bad('%s: good things were refused: %r', site, error)
        return
    if not all(goods) and error is None:
        c.bad('%s: a wrong thing among %r was accepted', site, goods)
    c.op()
    log('after')
    mine = [x for x in OUT if x[0] != 'base']
    if OUT.count(('base', 'after')) != 1 or any(x[0] == 'bad' for x in mine):
        c.bad('%s: the handlers saw %r', site, OUT)
    for k, (n, ok) in enumerate(zip(names, goods)):
        if site == 'levels':
            log('l', level=n)
            if all(goods) or not ok:
                c.eq(got[-1:], [40 + k if ok else 1], 'the level %s' % n)
        elif site in ('fields', 'engine'):
            if not ok and seen[0][k] is not None:
                c.bad('%s: the wrong field %s has the value %r', site, n, seen[0][k])
            if all(goods):
                c.eq(seen[0][k], n, 'the field %s' % n)
        elif all(goods):
            c.eq([x for x in OUT if x[0] == n], [(n, 'after')], 'what the handler %s saw' % n)
    c.state(site, goods)


# -- arguments of decorators ---------------------------------------------------------------------------------------
F = field(lambda i: 'v')
DECORATOR = {
    'message': (5, b'x', [], 1.5, object),
    'level': (5.5, [], b'x', (1,), 1j),
    'errors_level': (5.5, [], b'x', (1,), 1j),
    'handlers': (5, 'base', {'base'}, {'base': 1}, [5], [None], (..., ), [lambda: 1], [lambda a, b: 1], True),
    'extra_fields': (5, 'x', {'a'}, {'a': 5}, {'a': lambda i: 1}, {5: F}, [{'a': F}, {'a': F}], [{'a': 5}], [5], ['a'], [{'a': F}, ..., {None: F}]),
    'extra_engine_fields': (5, 'x', {'a': 5}, {5: F}, [{'a': F}, {'a': F}], [5]),
}
UNKNOWN = ('errorslevel', 'handler', 'filter', 'fields', 'unknown')


def decorator(c, spec):
    what, i, target, silent, good_first = spec
    OUT.clear()
    config.set(level=0, silent_internal_exceptions=silent)
    config.add_handlers(base=sink('base'))

    def f():
        return 'r'

    async def g():
        return 'r'

    class C:
        def m(self):
            return 'r'
    thing = dict(function=f, coroutine=g)[target] if target != 'class' else C
    if good_first:
        log('first')(thing)
    value = DECORATOR[what][i] if what in DECORATOR else 5
    c.op()
    try:
        log(**{what: value})(thing)
        c.bad('%s=%r was accepted by the decorator', what, value)
    except Exception:
        pass
    c.eq(OUT, [], 'records of a refused decorator')
    before = len(config.get_handlers())

    def run(x):
        if target == 'class':
            return x().m()
        r = x()
        if target == 'coroutine':
            try:
                r.send(None)
            except StopIteration as e:
                return e.value
        return r
    if target != 'class':
        c.eq(run(thing), 'r', 'the function itself')
        c.eq(OUT, [], 'records of the function itself')
    d = log('good')(thing)
    c.eq(run(d), 'r', 'the decorated function')
    c.eq(OUT, [('base', 'good')], 'records of a good decorator after a refused one')
    c.eq(len(config.get_handlers()), before, 'number of handlers')
    c.state(what, target)


def run(ctx):
    ctx.cases('several at once', itertools.product(('positional', 'named', 'dict', 'dicts', 'fields', 'engine', 'levels'), [g for n in range(1, 5) for g in itertools.product((True, False), repeat=n)]), several, managed=False)
    ctx.cases('shapes', shape_specs(ctx.thorough), shape)
    ctx.cases('field-names', [(k, n, a) for k in ('place', 'engine') for n in BUILT_IN + FREE + NOT_NAMES for a in (1, 2)], field_name)
    ctx.cases('field-values', [(k, v) for k in ('place', 'engine') for v in ('none', 'number', 'function', 'text', 'data', 'dict', 'dots')], field_values)
    ctx.cases('levels', [(n, v, r) for n in LEVEL_BAD_NAMES + ('good', 'lev_1', 'level', 'имя', 'ERROR') for v in LEVEL_GOOD + LEVEL_BAD_VALUES for r in (0, 1)], level_name)
    ctx.cases('decorators', [(w, i, t, s, g) for w in list(DECORATOR) + list(UNKNOWN) for i in range(len(DECORATOR.get(w, (1,)))) for t in ('function', 'coroutine', 'class') for s in (True, False) for g in (0, 1)], decorator)
