"""C23: a record is read-only, the same for every handler, ordered by time, and all ways of reading it agree."""
import datetime
import io
import itertools

from polog import SMTP_sender, config, field, file_writer, log, message
from polog.core.log_item import LogItem
from polog.handlers.memory.saver import memory_saver
from polog.errors import RewritingLogError

from mc.sched import calm
from checks.common import P, Program, flush, thread

WRITES = ('set', 'set-new', 'del', 'del-missing')
NAMES = ('message', 'level', 'time', 'absent', 'own', 'time_of_work', 'exception_type', '', 5, None)


class Mute:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Stub:
    def __init__(self, *args):
        pass

    def send(self, message):
        message.as_string()


class Boom(BaseException):
    pass


def snapshot(item):
    return sorted(((k, id(v), type(v).__name__) for k, v in item.items()), key=repr), len(item), list(item)


def reading(c, what, item):
    """Every way of reading the record gives the same content."""
    content = dict(item.items())
    c.eq(list(item), list(content), what + ': iteration and items()')
    c.eq(list(item.keys()), list(content), what + ': keys() and items()')
    c.eq([id(v) for v in item.values()], [id(v) for v in content.values()], what + ': values() and items()')
    c.eq(len(item), len(content), what + ': len() and items()')
    marker = object()
    for name in set(content) | set(NAMES):
        present = name in content
        c.eq(name in item, present, '%s: %r in record' % (what, name))
        if item.get(name, marker) is not (content[name] if present else marker):
            c.bad('%s: get(%r, default) is %r', what, name, item.get(name, marker))
        if item.get(name) is not content.get(name):
            c.bad('%s: get(%r) is %r', what, name, item.get(name))
        try:
            value = item[name]
            if not present or value is not content[name]:
                c.bad('%s: record[%r] is %r', what, name, value)
        except KeyError:
            if present:
                c.bad('%s: record[%r] is missing', what, name)
    for text in (str(item), repr(item)):
        for name in content:
            if str(name) not in text:
                c.bad('%s: no %r in the text %r', what, name, text)
            if isinstance(content[name], (str, int)) and str(content[name]) not in text:
                c.bad('%s: no value of %r in the text %r', what, name, text)
        c.eq('empty' in text and not content, not content, what + ': an empty record says so')


def attempt(c, what, item, behaviour):
    before = snapshot(item)
    name = next(iter(item), 'message')
    try:
        if behaviour == 'set':
            item[name] = 'changed'
        elif behaviour == 'set-new':
            item['brand new'] = 'changed'
        elif behaviour == 'del':
            del item[name]
        elif behaviour == 'del-missing':
            del item['brand new']
        elif behaviour in ('pop', 'clear', 'update', 'setdefault', 'popitem'):
            args = {'pop': (name,), 'clear': (), 'update': ({name: 1},), 'setdefault': ('brand new', 1), 'popitem': ()}[behaviour]
            getattr(item, behaviour)(*args)
        elif behaviour == 'copy':
            copy = dict(item)
            copy.clear()
            list(item.items()).clear()
        elif behaviour == 'fail':
            raise ValueError('from a handler')
        elif behaviour == 'fail-base':
            raise Boom
        elif behaviour == 'read':
            reading(c, what, item)
        elif behaviour == 'nested':
            log('nested')
        elif behaviour == 'edit':
            message('edited in a handler', level=77, own='edited')
        elif behaviour == 'file':
            file_writer(io.StringIO())(item)
        elif behaviour == 'smtp':
            SMTP_sender('a@b', 'password', 'server', 'c@d', smtp_wrapper=Stub)(item)
        elif behaviour == 'memory':
            memory_saver()(item)
        elif behaviour == 'compare':
            item == item, item != 5, hash(item), {item: 1}, str(item), sorted([item, item])
    except RewritingLogError:
        if behaviour not in WRITES:
            c.bad('%s: %s raised RewritingLogError', what, behaviour)
    except AttributeError:
        if behaviour not in ('pop', 'clear', 'update', 'setdefault', 'popitem'):
            raise
    else:
        if behaviour in WRITES:
            c.bad('%s: %s was not refused', what, behaviour)
    finally:
        if snapshot(item) != before:
            c.bad('%s: %s changed the record: %r', what, behaviour, dict(item.items()))


BEHAVIOURS = ('read', 'set', 'set-new', 'del', 'del-missing', 'pop', 'clear', 'update', 'setdefault', 'popitem', 'copy', 'fail', 'nested', 'edit', 'compare', 'file', 'smtp', 'memory')
PRODUCERS = ('manual', 'error', 'auto', 'auto-fail', 'auto-edited', 'strange')


def produce(kind):
    if kind == 'manual':
        log('manual', level=5, own='custom')
    elif kind == 'error':
        log('error', e=ValueError('x'))
    elif kind == 'strange':
        log('strange', **{'': 'empty name', 'own': Mute(), 'list': [1]})
    else:
        @log(message='auto')
        def f(x, y=2):
            if kind == 'auto-edited':
                message('edited', own='custom')
            if kind == 'auto-fail':
                raise KeyError(x)
            return x
        try:
            f(1, y=3)
        except KeyError:
            pass


def chain(c, spec):
    """All chains of handlers: each sees the record the first one saw, whatever the others do; each is called once."""
    producer, behaviours, pool = spec
    seen = []
    depth = [0]

    def make(n, behaviour):
        def h(item):
            if item.get('message') == 'nested':
                return
            seen.append((n, id(item), snapshot(item), tuple(item.function_input_data.args or ()) if item.function_input_data.args is not None else None))
            keep.append(item)
            attempt(c, '%r of %r' % (behaviour, spec), item, behaviour)
        return h
    keep = []
    config.set(level=0, pool_size=pool, fields_intersection=False)
    config.add_fields(engine=field(lambda item: 'from engine'))
    config.add_fields(broken=field(lambda item: item['no such field']))
    for n, b in enumerate(behaviours):
        config.add_handlers(make(n, b))
    produce(producer)
    flush()
    c.eq([s[0] for s in seen], list(range(len(behaviours))), 'calls of the handlers of %r' % (spec,))
    for s in seen[1:]:
        if s[1:] != seen[0][1:]:
            c.bad('%r: the handlers saw different records: %r, %r', spec, seen[0], s)
    c.eq(seen[0][3] if seen else None, (1,) if producer.startswith('auto') else None, 'positional arguments of the call kept in the record of %r' % (spec,))
    reading(c, repr(spec), keep[0])
    c.op(len(behaviours))
    c.state(spec)


T = [datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 1, 0, 0, 0, 2), datetime.datetime(2020, 1, 1, 0, 0, 1, 1)]
AWARE = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
TIMES = {'no data': None, 'no time': 'x', 'none': None, 0: T[0], 1: T[1], 2: T[2], '0 again': datetime.datetime(2020, 1, 1), 'aware': AWARE}


def record(kind, extra):
    item = LogItem()
    if kind == 'no data':
        return item
    data = {'message': str(extra), 'level': extra, 'success': extra % 2 == 0, 'auto': extra % 2 == 1, 'function': 'f%d' % extra, 'own': extra}
    if kind == 'none':
        data['time'] = None
    elif kind != 'no time':
        data['time'] = TIMES[kind]
    item.set_data(data)
    return item


def when(kind):
    return TIMES[kind] if kind not in ('no data', 'no time', 'none') else None


def ordering(c, kinds):
    """Comparisons of records are the comparisons of their times."""
    items = [record(k, n) for n, k in enumerate(kinds)]
    for (i, a), (j, b) in itertools.product(enumerate(items), repeat=2):
        ta, tb = when(kinds[i]), when(kinds[j])
        what = 'records %r, %r of times %r, %r' % (i, j, ta, tb)
        known = ta is not None and tb is not None
        c.eq(a == b, known and ta == tb, what + ': ==')
        c.eq(a != b, not known or ta != tb, what + ': !=')
        if a == b and hash(a) != hash(b):
            c.bad('%s: equal, but the hashes differ', what)
        for symbol, op in (('<', lambda x, y: x < y), ('>', lambda x, y: x > y), ('<=', lambda x, y: x <= y), ('>=', lambda x, y: x >= y)):
            try:
                want = op(ta, tb) if known else TypeError
            except TypeError:
                want = TypeError
            try:
                got = op(a, b)
            except TypeError:
                got = TypeError
            c.eq(got, want, '%s: %s' % (what, symbol))
        c.op(6)
    for item in items:
        for other in (None, 5, 'x', T[0], T[1], {}, object()):
            c.eq((item == other, item != other), (False, True), 'comparison of a record with %r' % (other,))
            for op in (lambda: item < other, lambda: item > other, lambda: item <= other, lambda: item >= other):
                try:
                    op()
                    c.bad('ordering of a record and %r did not fail', other)
                except TypeError:
                    pass
    if all(type(k) is int or k == '0 again' for k in kinds):
        c.eq([id(x) for x in sorted(items)], [id(items[n]) for n in sorted(range(len(items)), key=lambda n: when(kinds[n]))], 'sorting of %r' % (kinds,))
        c.eq([id(x) for x in sorted(items, reverse=True)], [id(items[n]) for n in sorted(range(len(items)), key=lambda n: when(kinds[n]), reverse=True)], 'reverse sorting of %r' % (kinds,))
        c.eq(len(set(items)), len({when(k) for k in kinds}), 'set of %r' % (kinds,))
    c.state(kinds)


def contents(c, names):
    """Reading of records with every set of present fields."""
    values = {'message': 'text', 'level': 5, 'time': T[0], 'own': None, '': 'empty', 'exception_type': 'E', 'mute': Mute(), 'list': [1], 'class': False}
    item = LogItem()
    if names is not None:
        data = {n: values[n] for n in names}
        item.set_data(data)
    reading(c, repr(names), item)
    for b in BEHAVIOURS[:11]:
        attempt(c, repr(names), item, b)
    c.eq(item.function_input_data.args, None, 'arguments')
    c.eq(item.function_input_data.kwargs, None, 'arguments')
    c.op(20)
    c.state(names)


class Later(Program):
    """The worker's handlers look at the record several times while the producer goes on."""
    trace = (P + 'loggers', P + 'core/log_item.py')
    exclude = ()

    def __init__(self, kind, way):
        self.kind, self.way = kind, way
        self.name = 'later-%s-%s' % (kind, way)

    def run(self, k):
        views = {}

        def first(item):
            views.setdefault(id(item), []).append(snapshot(item))
            keep.append(item)

        def second(item):
            views.setdefault(id(item), []).append(snapshot(item))
        keep = []
        with calm():
            config.set(level=0, pool_size=1)
            config.add_handlers(first, second)

            @log(message='x')
            def f(x):
                message('edited %s' % x, own=x)
                if self.way == 'fail':
                    raise ValueError(x)
                return x
        with calm():
            t = thread(lambda: None)
            t.join()
        for n in (1, 2):
            if self.kind == 'auto':
                try:
                    f(n)
                except ValueError:
                    pass
            else:
                log('manual %d' % n, own=n, **({'e': ValueError(n)} if self.way == 'fail' else {}))
        flush()
        for item in keep:
            views[id(item)].append(snapshot(item))
        k.eq(len(keep), 2, 'records')
        for v in views.values():
            k.eq(v, [v[0]] * 3, 'views of one record')
        own = sorted(i.get('own') for i in keep)
        k.eq(own, [1, 2], 'own field')


def run(ctx):
    depth = 4 if ctx.thorough else 3
    ctx.cases('chains', ((p, b + ('read',), 0) for p in PRODUCERS for n in range(1, depth + 1) for b in itertools.product(BEHAVIOURS, repeat=n)), chain, managed=False)
    ctx.cases('chains in a worker', ((p, b + ('read',), 1) for p in PRODUCERS for b in itertools.product(BEHAVIOURS, repeat=3 if ctx.thorough else 2)), chain)
    ctx.cases('ordering', itertools.product(list(TIMES), repeat=4 if ctx.thorough else 3), ordering, managed=False)
    fields = ('message', 'level', 'time', 'own', '', 'exception_type', 'mute', 'list', 'class')
    ctx.cases('contents', itertools.chain([None], (s for n in range(len(fields) + 1) for s in itertools.combinations(fields, n))), contents, managed=False)
    for kind in ('manual', 'auto'):
        for way in ('ok', 'fail'):
            ctx.explore(Later(kind, way), 1, 2)
