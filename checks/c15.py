"""C15: extracted fields appear exactly where configured and follow the precedence rules."""
import asyncio
import itertools
import logging
import threading

from polog import config, field, handle_log, log, message

from checks import volume
from checks.common import P, Program, flush, handler, thread
from mc.sched import calm

NAMES = ('A', 'B', 'C')
MAIN = []
E = Ellipsis


class Where:
    """Which thread the extractors were called in."""
    calls = []


def make(tag, name):
    """A field whose value tells where it was registered and what its extractor saw."""
    def extract(item):
        Where.calls.append((tag, threading.get_ident() == MAIN[0]))
        if tag == 'fail':
            raise KeyError(name)
        return '%s:%s:%s' % (tag, name, item.function_input_data.args)
    if tag.endswith('conv'):
        return field(lambda item: extract(item) + '!', converter=lambda v: v[:-1])
    return field(extract)


# What may be given to a decorator; a letter is a field, '.' an ellipsis, '!' a failing A; groups are dictionaries.
LOCALS = (None, '{}', '{A}', '{AC}', '[{A}]', '[{A}{C}]', '[{A}.]', '[.{A}]', '({A}.)', '(.{C}{A})', '[.]', '(.)', '[]', '()', '{!}', '[{!}.]', '[.{AB}.]')


def local(spec, tag):
    if spec is None:
        return None
    groups, cur = [], None
    for ch in spec:
        if ch == '{':
            cur = {}
        elif ch == '}':
            groups.append(cur)
        elif ch == '.':
            groups.append(E)
        elif ch == '!':
            cur['A'] = make('fail', 'A')
        elif ch in NAMES:
            cur[ch] = make(tag, ch)
    if spec[0] == '{':
        return groups[0]
    return groups if spec[0] == '[' else tuple(groups)


def effective(spec, tag, glob):
    """name -> tag of the set a decorator uses."""
    if spec is None:
        return dict(glob)
    mine = {ch: tag for ch in spec if ch in NAMES}
    if '!' in spec:
        mine['A'] = 'fail'
    if '.' in spec:
        for n, t in glob.items():
            mine.setdefault(n, t)
    return mine


def snapshot(x):
    if isinstance(x, dict):
        return sorted((k, id(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snapshot(y) for y in x]
    return id(x)


def expected(user, inp, eng, intersect, args):
    data = dict(user)
    for group in (inp, eng):
        for name, tag in group.items():
            if tag == 'fail':
                continue
            if name not in data or intersect:
                data[name] = '%s:%s:%s' % (tag, name, args)
    return data


def listen():
    out = []
    MAIN[:] = [threading.get_ident()]
    config.add_handlers(handler(lambda i: out.append({n: i[n] for n in NAMES if n in i})))
    return out


def drain(out, pool):
    if pool:
        config.set(pool_size=pool + 1)
        config.set(pool_size=pool)
    r = list(out)
    del out[:]
    return r


def threads(c, pool, what, inplace_tags=('gi', 'li', 'gi conv'), engine_tags=('ge', 'le')):
    for tag, main in Where.calls:
        if tag in inplace_tags and not main:
            c.bad('%s: an in-place field was computed outside the logging thread', what)
        if tag in engine_tags and main is not (pool == 0):
            c.bad('%s: an engine field was computed in %s thread', what, 'the logging' if main else 'another')
    del Where.calls[:]


def matrix(c, spec):
    gi, ge, intersect, pool, style = spec
    out = listen()
    config.set(fields_intersection=intersect, deduplicate_errors=False)
    if pool:
        config.set(pool_size=pool)
    inp, eng = {}, {}
    for n in gi:
        tag = 'gi conv' if n == 'B' else 'gi'
        config.add_fields(**{n: make(tag, n)})
        inp[n] = tag
    for n in ge:
        config.add_engine_fields(**{n: make('ge', n)})
        eng[n] = 'ge'
    if style in ('manual', 'handle', 'block', 'std'):
        for user in ({}, {'A': 'mine'}, {'B': 'mine', 'C': 'mine'}, {'A': '', 'B': 0}, {'C': False}):
            if style == 'manual':
                log('m', **user)
            elif style == 'handle':
                handle_log('m', **user)
            elif style == 'block':
                with log('m') as ctx:
                    ctx(**user)
            else:
                user = {}
                logging.error('std')
            c.op()
            what = '%s with global %s/%s and %s' % (style, gi, ge, user)
            c.eq(drain(out, pool), [expected(user, inp, eng, intersect, None)], what)
            threads(c, pool, what)
        return
    todo = []
    for li, le in itertools.product(LOCALS, repeat=2):
        if li is not None and le is not None and (pool or style != 'function') and not (li in LOCALS[5:8] or le in LOCALS[5:8]):
            continue
        for user in ({}, {'A': 'mine', 'B': 'mine'}) + (({'A': 0, 'B': ''},) if li is None or le is None else ()):
            kw = {}
            given_i, given_e = local(li, 'li'), local(le, 'le')
            before = snapshot(given_i), snapshot(given_e)
            if li is not None:
                kw['extra_fields'] = given_i
            if le is not None:
                kw['extra_engine_fields'] = given_e
            what = '%s with global %s/%s, local %s/%s and %s' % (style, gi, ge, li, le, user)
            if style in ('function', 'error'):
                @log(**kw)
                def f(x):
                    if user:
                        message(**user)
                    if style == 'error':
                        raise ValueError('x')
                try:
                    f(7)
                except ValueError:
                    pass
            else:
                @log(**kw)
                async def g(x):
                    if user:
                        message(**user)
                asyncio_run(g(7))
            c.op()
            if (snapshot(given_i), snapshot(given_e)) != before:
                c.bad('%s: the arguments of the decorator were modified', what)
            todo.append((what, expected(user, effective(li, 'li', inp), effective(le, 'le', eng), intersect, (7,))))
            if not pool:
                threads(c, pool, what)
    got = drain(out, pool)
    threads(c, pool, 'decorators')
    if len(got) != len(todo):
        c.bad('%d records of %d calls', len(got), len(todo))
    if pool:
        key = lambda d: repr(sorted(d.items()))
        c.eq(sorted(got, key=key), sorted((w for _, w in todo), key=key), 'records of all calls')
    else:
        for g, (what, w) in zip(got, todo):
            c.eq(g, w, what)


def asyncio_run(aw):
    try:
        aw.send(None)
    except StopIteration as e:
        return e.value


# -- histories ----------------------------------------------------------------------------------------------------
OPS = [(k, n) for k in ('+i', '-i', '+e', '-e') for n in ('A', 'B')] + [('*', '')] + [('?i', 'A'), ('?e', 'A')]
BAD_NAMES = ('level', 'message', 'auto', 'time', 'success', 'function', 'class', 'module', 'service_name', 'exception_type', 'exception_message', 'traceback', 'input_variables', 'local_variables',
             'result', 'time_of_work', '_x', '1a', 'a b', '')


def history(c, ops):
    out = listen()
    inp, eng, state = {}, {}, {'x': False}
    counter = [0]

    def refuse(fn, what):
        try:
            fn()
        except Exception:
            return
        c.bad('%s was accepted', what)

    def add(kind, n):
        counter[0] += 1
        tag = '%s%d' % (kind, counter[0])
        (config.add_fields if kind == 'i' else config.add_engine_fields)(**{n: make(tag, n)})
        (inp if kind == 'i' else eng)[n] = tag

    def delete(kind, n):
        d = inp if kind == 'i' else eng
        fn = config.delete_fields if kind == 'i' else config.delete_engine_fields
        if n in d:
            fn(n)
            del d[n]
        else:
            refuse(lambda: fn(n), 'deleting the unknown field %s' % n)

    @log
    def plain(x):
        pass

    @log(extra_fields=[{'A': make('li', 'A')}, E], extra_engine_fields=({'B': make('le', 'B')}, E))
    def more(x):
        pass

    @log(extra_fields={'A': make('li', 'A')}, extra_engine_fields={})
    def own(x):
        pass

    def compare(what):
        for name, call, i, e, args in (
                ('manual', lambda: log('m'), inp, eng, None), ('block', block, inp, eng, None), ('plain', lambda: plain(1), inp, eng, (1,)),
                ('with an ellipsis', lambda: more(1), effective('[{A}.]', 'li', inp), effective('[{B}.]', 'le', eng), (1,)), ('own', lambda: own(1), {'A': 'li'}, {}, (1,))):
            call()
            w = expected({}, i, e, state['x'], args)
            c.eq(drain(out, 0), [w], '%s: %s' % (what, name))
        for kind, d, fn in (('in-place', inp, config.get_in_place_fields), ('engine', eng, config.get_engine_fields)):
            c.eq(sorted(fn()), sorted(d), '%s: registered %s fields' % (what, kind))
            c.eq(sorted(fn('A', 'nosuch')), sorted(n for n in d if n == 'A'), '%s: %s field A' % (what, kind))
        c.eq(sorted(config.get_all_fields()), sorted(set(inp) | set(eng)), what + ': all fields')

    def block():
        with log('m'):
            pass
    for n, (op, name) in enumerate(ops):
        what = 'step %d of %s' % (n, ops)
        if op[0] == '+':
            add(op[1], name)
        elif op[0] == '-':
            delete(op[1], name)
        elif op[0] == '*':
            state['x'] = not state['x']
            config.set(fields_intersection=state['x'])
        elif op[0] == '?':
            fn = config.add_fields if op[1] == 'i' else config.add_engine_fields
            for bad in (None, 5, 'text', lambda item: 1, object()):
                refuse(lambda: fn(A=bad), 'the field %r' % (bad,))
            for bad in BAD_NAMES:
                refuse(lambda: fn(**{bad: make('bad', 'A')}), 'the field name %r' % bad)
            d = config.delete_fields if op[1] == 'i' else config.delete_engine_fields
            for bad in (None, 5, 'nosuch', ('A',)):
                refuse(lambda: d(bad), 'deleting %r' % (bad,))
        c.op()
        compare(what)
    del Where.calls[:]
    c.state(tuple(sorted(inp)), tuple(sorted(eng)), state['x'])


def wrong(c, spec):
    """Wrong arguments of a decorator are reported where it is made."""
    key, i = spec
    f = make('x', 'A')
    bad = [5, 'text', f, {'A': 5}, {5: f}, [{'A': f}, {'A': f}], [f], [5], {'A': lambda item: 1}, [{'A': f}, 5, E]][i]
    try:
        @log(**{key: bad})
        def g():
            pass
    except Exception:
        return c.op()
    c.bad('%s=%r was accepted', key, bad)


EMPTY = (None, '', 0, False, (), 0.0)


def empty(c, spec):
    """A field that was extracted is there whatever its value: the later one does not take its place without intersection."""
    first, second, intersect, style, where = spec
    out = listen()
    config.set(fields_intersection=intersect)
    one, two = field(lambda item: first), field(lambda item: second)
    if where == 'local':
        kw = dict(extra_fields={'A': one}, extra_engine_fields={'A': two})
    elif where == 'mixed':
        config.add_fields(A=one)
        kw = dict(extra_engine_fields=[{'A': two}, E])
    else:
        config.add_fields(A=one)
        config.add_engine_fields(A=two)
        kw = {}
    if style == 'function':
        log(**kw)(lambda: None)()
    elif style == 'block':
        with log('m'):
            pass
    else:
        log('m')
    c.op()
    got = drain(out, 0)
    if c.eq(len(got), 1, 'records'):
        c.eq(repr(got[0].get('A', 'nothing')), repr(second if intersect else first), 'the field A')


# -- changes while others log --------------------------------------------------------------------------------------
class Race(Program):
    def __init__(self, kind, engine, style, trace):
        self.kind, self.engine, self.style = kind, engine, style
        self.name = 'race-%s-%s-%s' % (kind, 'engine' if engine else 'in-place', style)
        self.trace = trace

    def run(self, k):
        with calm():
            out = listen()
            add = config.add_engine_fields if self.engine else config.add_fields
            delete = config.delete_engine_fields if self.engine else config.delete_fields
            add(A=make('one', 'A'), B=make('one', 'B'), C=make('one', 'C'))
            if self.kind == 'add':
                delete('B')

            @log(**{'extra_engine_fields' if self.engine else 'extra_fields': [{'C': make('loc', 'C')}, E]})
            def f():
                pass
            log('warm up')
            f()
            del out[:]

        def change():
            if self.kind == 'add':
                add(B=make('two', 'B'))
            elif self.kind == 'delete':
                delete('B')
            else:
                add(B=make('two', 'B'))
        call = (lambda: log('m')) if self.style == 'manual' else f
        t = thread(change)
        call()
        t.join()
        call()
        k.observe(tuple(sorted(d.items()) for d in out) if False else repr([sorted(d.items()) for d in out]))
        args = None if self.style == 'manual' else ()
        c_tag = 'one' if self.style == 'manual' else 'loc'
        v = lambda tag, n: '%s:%s:%s' % (tag, n, args)
        bs = {'add': (None, v('two', 'B')), 'delete': (v('one', 'B'), None), 'replace': (v('one', 'B'), v('two', 'B'))}[self.kind]
        k.eq(len(out), 2, 'number of records')
        for n, d in enumerate(out):
            k.eq((d.get('A'), d.get('C')), (v('one', 'A'), v(c_tag, 'C')), 'fields that did not change')
            k.check(d.get('B') in (bs if n == 0 else bs[1:]), 'the changed field is %r, possible: %r', d.get('B'), bs if n == 0 else bs[1:])


def run(ctx):
    subsets = ('', 'A', 'B', 'AB', 'BC')
    specs = [(gi, ge, x, pool, style) for gi in subsets for ge in subsets for x in (False, True) for pool in (0, 2) for style in ('function', 'error', 'async', 'manual', 'handle', 'block', 'std')]
    ctx.cases('matrix', specs, matrix)

    def histories():
        for n in range(1, ctx.pick(5, 6)):
            yield from itertools.product(OPS, repeat=n)
    ctx.cases('histories', histories(), history, managed=False)
    ctx.cases('empty values', [x for x in itertools.product(EMPTY + ('x',), EMPTY + ('y',), (False, True), ('function', 'block', 'manual'), ('global', 'mixed', 'local'))
                               if x[3] == 'function' or x[4] == 'global'], empty, managed=False)
    ctx.cases('wrong arguments', itertools.product(('extra_fields', 'extra_engine_fields'), range(10)), wrong, managed=False)
    for kind in ('add', 'delete', 'replace'):
        for engine in (False, True):
            for style in ('manual', 'decorator'):
                ctx.explore(Race(kind, engine, style, (P + 'core/log_item', P + 'core/stores', P + 'config', P + 'loggers', P + 'data_structures')), 1, 2)
    volume.run(ctx, 'C15')
