"""C24: the standard text line of a record is complete and faithful."""
import datetime
import io
import itertools
import json
import re
import sys
from decimal import Decimal

from polog import config, field, file_writer, log
from polog.core.log_item import LogItem

from mc.sched import calm
from checks.common import P, Program, flush, thread


class Mute:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Plain:
    def __str__(self):
        return 'plain object'


class Strange:
    """Fails whatever is done with it."""
    def _fail(self, *args):
        raise ZeroDivisionError
    __str__ = __repr__ = __eq__ = __bool__ = __len__ = __iter__ = __format__ = __hash__ = __float__ = __getitem__ = _fail


MISSING = '<missing>'          # the field is not in the record
LOOSE = object()               # shown somehow, must not disturb the rest
WHEN = datetime.datetime(2021, 2, 3, 4, 5, 6, 78)
MUTE, STRANGE, PLAIN = Mute(), Strange(), Plain()
ODD = [('number', 5), ('none', None), ('list', [1, 'a']), ('bytes', b'\xff'), ('text', 'some text'), ('empty', ''), ('mute', MUTE), ('strange', STRANGE), ('object', PLAIN), ('false', False), ('json-number', '5'),
       ('json-list', '[1]'), ('json-null', 'null'), ('json-object', '{}'), ('json-odd', '{"args": 5, "kwargs": [1]}')]


def var(value, kind=None):
    return {'value': value, 'type': kind or type(value).__name__}


def frame(path, line, where, code):
    return '  File "%s", line %d, in %s\n    %s\n' % (path, line, where, code)


# field -> [(label, value, the segment; None: no segment)]
VALUES = {
    'time': [('missing', MISSING, '[----time not specified----]'), ('time', WHEN, '[2021-02-03 04:05:06.000078]'), ('whole second', WHEN.replace(microsecond=0), '[2021-02-03 04:05:06]')],
    'level': [('missing', MISSING, 'UNKNOWN'), ('plain', 7, '7'), ('zero', 0, '0'), ('named', 20, 'INFO'), ('renamed', 30, 'second'), ('long', 40, 'a_very_long_name'), ('moved from', 50, '50'), ('moved to', 51, 'moved'), ('big', 10 ** 12, str(10 ** 12)), ('huge', 10 ** 20, str(10 ** 20))],
    'success': [('missing', MISSING, 'UNKNOWN'), ('true', True, 'SUCCESS'), ('false', False, 'ERROR')],
    'auto': [('missing', MISSING, 'MANUAL'), ('true', True, 'AUTO'), ('false', False, 'MANUAL')],
    'message': [('missing', MISSING, None), ('text', 'hello', '"hello"'), ('empty', '', '""'), ('special', 'a | b "c" {d} %s \\ Ж', '"a | b "c" {d} %s \\ Ж"'), ('spaces', '  x ', '"  x "')],
    'time_of_work': [('missing', MISSING, None)] + [(str(v), v, 'time of work: %s sec.' % t) for v, t in (
        (0, '0'), (0.0, '0'), (1, '1'), (10, '10'), (100.0, '100'), (12.5, '12.5'), (0.00001478, '0.00001478'), (0.1, '0.1'), (3600, '3600'), (1234567.25, '1234567.25'), (20.00000001, '20.00000001'), (1e-9, '0'), (1000000, '1000000'), (1.0000001, '1.0000001'))],
    'input_variables': [('missing', MISSING, None), ('one', json.dumps({'args': [var(1)]}), 'input variables: 1 (int)'), ('two', json.dumps({'args': [var(1), var('x')]}), 'input variables: 1 (int), "x" (str)'),
                        ('named', json.dumps({'kwargs': {'a': var(1.5)}}), 'input variables: a = 1.5 (float)'),
                        ('both', json.dumps({'args': [var('<C object>', 'C')], 'kwargs': {'a': var(True), 'b': var('')}}), 'input variables: <C object> (C), a = True (bool), b = "" (str)')],
    'local_variables': [('missing', MISSING, None), ('named', json.dumps({'kwargs': {'a': var(1), 'b': var('x, y')}}), 'local variables: a = 1 (int), b = "x, y" (str)'), ('free', 'x is 5', 'local variables: x is 5'), ('args', json.dumps({'args': [var(False)]}), 'local variables: False (bool)')],
    'result': [('missing', MISSING, None), ('number', json.dumps(var(4)), 'result: 4 (int)'), ('text', json.dumps(var('4')), 'result: "4" (str)'), ('none', json.dumps({'value': 'None', 'type': 'NoneType'}), 'result: None (NoneType)'),
               ('object', json.dumps({'value': '<C object>', 'type': 'C'}), 'result: <C object> (C)'), ('negative', json.dumps(var(-0.5)), 'result: -0.5 (float)')],
    'traceback': [('missing', MISSING, None), ('empty', '[]', 'no traceback'), ('one', json.dumps([frame('/a/b.py', 9, 'division', 'return a / b')]), 'traceback: return a / b ("/a/b.py", line 9, in division)'),
                  ('two', json.dumps([frame('/a/b.py', 9, 'f', 'g(x)'), frame('C:\\my dir\\c d.py', 123, '<lambda>', 'raise  E("x  y")')]), 'traceback: g(x) ("/a/b.py", line 9, in f); raise  E("x  y") ("C:\\my dir\\c d.py", line 123, in <lambda>)'),
                  ('repeated', json.dumps([frame('/a.py', 1, 'f', 'f()'), '  [Previous line repeated 7 more times]\n', frame('/a.py', 2, 'f', '1/0')]),
                   'traceback: f() ("/a.py", line 1, in f); [Previous line repeated 7 more times]; 1/0 ("/a.py", line 2, in f)')],
}
PLACES = list(itertools.product((MISSING, 'func'), (MISSING, 'mod'), (MISSING, 'Klass'), (MISSING, 'svc')))
EXCEPTIONS = [('missing', MISSING, MISSING, None), ('type', 'ValueError', MISSING, 'exception: ValueError()'), ('both', 'ValueError', 'it "is" bad', 'exception: ValueError("it "is" bad")'), ('empty', 'ValueError', '', 'exception: ValueError("")')]
EXTRAS = [('none', {}, []), ('text', {'x': 'a'}, ['x: "a"']), ('several', {'z': 5, 'y': None, 'x': 'a b', 'w': [1], 'v': 0}, ['z: 5', 'x: "a b"', 'w: [1]', 'v: 0']), ('mute', {'x': MUTE, 'y': 1}, [LOOSE, 'y: 1']),
          ('strange', {'x': STRANGE, 'y': 'z'}, [LOOSE, 'y: "z"']), ('object', {'x': PLAIN}, ['x: plain object'])]
ORDER = ('time', 'level', 'success', 'auto', 'message', 'place', 'time_of_work', 'input_variables', 'local_variables', 'result', 'exception', 'traceback', 'extra')
KINDS = {name: len(v) for name, v in VALUES.items()}
KINDS.update(place=len(PLACES), exception=len(EXCEPTIONS), extra=len(EXTRAS))
FULL = {name: 1 for name in ORDER}
FULL['place'] = len(PLACES) - 1


def place(spec):
    function, module, klass, service = spec
    known = [x for x in (service, module, klass) if x != MISSING]
    if function != MISSING:
        return 'where: %s()' % '.'.join(known + [function])
    return 'where: %s' % '.'.join(known + ['?'])


def build(choice):
    """The record and the segments for a choice of one value per field."""
    data, segments, service = {}, [], None
    for name in ORDER:
        n = choice.get(name, 0)
        if name == 'place':
            for f, v in zip(('function', 'module', 'class', 'service_name'), PLACES[n]):
                if v != MISSING:
                    data[f] = v
            service = PLACES[n][3] if PLACES[n][3] != MISSING else None
            segments.append((name, place(PLACES[n])))
        elif name == 'exception':
            label, kind, text, segment = EXCEPTIONS[n]
            if kind != MISSING:
                data['exception_type'] = kind
            if text != MISSING:
                data['exception_message'] = text
            if segment is not None:
                segments.append((name, segment))
        elif name == 'extra':
            label, fields, parts = EXTRAS[n]
            data.update(fields)
            segments += [('extra', x) for x in parts]
        else:
            label, value, segment = VALUES[name][n]
            if value is not MISSING:
                data[name] = value
            if segment is not None:
                segments.append((name, segment))
    return data, segments, service


def same(got, name, segment):
    if segment is LOOSE:
        return bool(got)
    if name == 'traceback':
        # underlining of a part of the line (newer interpreters) and runs of spaces inside of the code are a matter of taste
        return re.sub(r'\s+', ' ', re.sub(r'\s+[~^]+(?= \()', '', got)) == re.sub(r'\s+', ' ', segment)
    return got == segment


def match(line, segments, widths):
    """Does the line consist of these segments? Returns None or what is wrong."""
    if not line.endswith('\n'):
        return 'no separator at the end'
    rest = line[:-1]
    for i, (name, segment) in enumerate(segments):
        width = widths.get(name, 0)
        if segment is LOOSE or name == 'traceback':
            # up to the separator
            part, sep, tail = rest.partition(' | ')
            if not same(part, name, segment):
                return '%s is shown as %r instead of %r' % (name, part, segment)
            rest = tail if sep else None
        else:
            text = '{:^{w}}'.format(segment, w=width)
            if not rest.startswith(text):
                return '%s must be shown as %r in %r' % (name, text, rest)
            rest = rest[len(text):]
            if rest.startswith(' | '):
                rest = rest[3:]
            elif rest == '':
                rest = None
            else:
                return '%r after %s' % (rest, name)
        if rest is None and i != len(segments) - 1:
            return 'the line ends after %s' % name
    if rest is not None:
        return 'superfluous %r' % rest
    return None


def setup():
    config.set(pool_size=0, level=0)
    config.levels(INFO=20, first=30)
    config.levels(second=30)
    config.levels(a_very_long_name=40)
    config.levels(moved=50)
    config.levels(moved=51)
    out = io.StringIO()
    return out, file_writer(out), {'level': 16, 'success': 7, 'auto': 6}


def write(handler, out, data):
    item = LogItem()
    item.set_data(data)
    out.seek(0)
    out.truncate()
    handler(item)
    return out.getvalue()


def one(c, env, choice, data=None, segments=None):
    out, handler, widths = env
    wanted, expected, service = build(choice)
    if data is not None:
        wanted, expected = data, segments
    if service != env_service[0]:
        config.set(service_name=service)
        env_service[0] = service
    line = write(handler, out, wanted)
    c.op()
    wrong = match(line, expected, widths)
    if wrong:
        c.bad('%r: %s; the line: %r', choice, wrong, line)
    return line


env_service = [None]


def presence(c, subset):
    """Every set of present fields, with each of a few of their values."""
    env = setup()
    names = list(ORDER)
    head = {n: 1 for n in subset}
    rest = [n for n in names[8:] if n not in subset]
    for variant in range(3):
        for n in range(len(rest) + 1):
            for more in itertools.combinations(rest, n):
                choice = {}
                for name in list(head) + list(more):
                    choice[name] = (KINDS[name] - 1, 1, 2 if KINDS[name] > 2 else 1)[variant]
                one(c, env, choice)
    c.state(subset)


def pairs(c, spec):
    """Every value of a field with every value of every other, the rest absent or present."""
    a, b = spec
    env = setup()
    for background in (0, 1):
        for i, j in itertools.product(range(KINDS[a]), range(KINDS[b])):
            choice = dict(FULL) if background else {}
            choice.update({a: i, b: j})
            one(c, env, choice)
    c.state(spec)


def triples(c, spec):
    a, b, d = spec
    env = setup()
    for i, j, k in itertools.product(range(KINDS[a]), range(KINDS[b]), range(KINDS[d])):
        choice = dict(FULL)
        choice.update({a: i, b: j, d: k})
        one(c, env, choice)
    c.state(spec)


FIELDS = ('time', 'level', 'success', 'auto', 'message', 'function', 'module', 'class', 'time_of_work', 'input_variables', 'local_variables', 'result', 'exception_type', 'exception_message', 'traceback', 'extra', 'extra2')


def unusual(c, names):
    """No value makes the line fail or disturbs the neighbours: an error leads to the fallback, so there must be no fallback."""
    out, handler, widths = setup()
    failed = []
    handler.alt = lambda item: failed.append(item)
    for values in itertools.product(ODD, repeat=len(names)):
        data, expected, service = build(FULL)
        config.set(service_name=service)
        data['extra'] = 'marker'
        data['extra2'] = 'last'
        for name, (label, value) in zip(names, values):
            data[name] = value
        what = ', '.join('%s=%s' % (n, l) for n, (l, v) in zip(names, values))
        line = write(handler, out, data)
        c.op()
        if failed or not line.endswith('\n'):
            c.bad('%s: no line: %r', what, line)
            del failed[:]
            continue
        position = 0
        broken = {'function': 'place', 'module': 'place', 'class': 'place', 'service_name': 'place', 'exception_type': 'exception', 'exception_message': 'exception'}
        loose = {broken.get(n, n) for n in names}
        if 'extra' in names:
            loose.add('extra')
        for name, segment in expected + [('extra', 'extra: "marker"'), ('extra2', 'extra2: "last"')]:
            if name in loose:
                continue
            where = line.find(segment, position)
            if where < 0:
                c.bad('%s: no %r in %r', what, segment, line)
                break
            position = where + len(segment)
    c.state(names)


def truthful(c, spec):
    """The line of a real record says what the record says."""
    kind, value, service = spec
    out, handler, widths = setup()
    records = []
    config.set(service_name=service)
    config.add_handlers(handler, lambda item: records.append(item))
    config.add_fields(mark=field(lambda item: 'extra field'))
    values = {'int': 5, 'text': 'hello | "x"', 'none': None, 'float': -2.5, 'object': PLAIN, 'list': [1, 'x'], 'mute': MUTE, 'bool': True}
    x = values[value]
    shown = {'int': '5 (int)', 'text': '"hello | "x"" (str)', 'none': 'None (NoneType)', 'float': '-2.5 (float)', 'object': 'plain object (Plain)', 'list': "[1, 'x'] (list)", 'mute': None, 'bool': 'True (bool)'}[value]

    def func(a, b=1):
        if kind.endswith('fail'):
            raise KeyError(a)
        return b
    try:
        if kind.startswith('decorated'):
            log(message='the message')(func)(x, b=x)
        elif kind.startswith('manual'):
            if kind == 'manual-fail':
                try:
                    func(x)
                except KeyError as e:
                    log('the message', e=e, function=func, own=x)
            else:
                log('the message', success=True, level='INFO', function=func, own=x)
        else:
            with log('the message', own=x):
                func(x)
    except KeyError:
        pass
    line = out.getvalue()
    r = records[0]
    segments = [('time', '[%s]' % r['time']), ('level', {1: '1', 2: '2', 20: 'INFO'}[r['level']]), ('success', 'ERROR' if kind.endswith('fail') else 'SUCCESS'), ('auto', 'AUTO' if kind.startswith('decorated') else 'MANUAL'), ('message', '"the message"')]
    prefix = (service + '.') if service else ''
    segments.append(('place', 'where: %s?' % prefix if kind.startswith('with') else 'where: %s%s.func()' % (prefix, __name__)))
    if not kind.startswith('manual'):
        number = '{:.8f}'.format(Decimal(r['time_of_work'])).rstrip('0').rstrip('.')
        segments.append(('time_of_work', 'time of work: %s sec.' % number))
    position = 0
    for name, segment in segments:
        text = '{:^{w}}'.format(segment, w=widths.get(name, 0))
        if not line[position:].startswith(text + ' | '):
            c.bad('%r: %s must be shown as %r in %r', spec, name, text, line[position:])
            return
        position += len(text) + 3
    rest = line[position:]
    parts = []
    if kind.startswith('decorated') and shown is not None:
        parts.append('input variables: %s, b = %s' % (shown, shown))
        if not kind.endswith('fail'):
            parts.append('result: %s' % shown)
    if kind.endswith('fail') and shown is not None:
        parts.append('exception: KeyError("%s")' % KeyError(x))
    if kind == 'decorated-fail':
        parts.append('raise KeyError(a)')
        parts.append('c24.py", line %d, in func)' % (func.__code__.co_firstlineno + 2))
    if not kind.startswith('decorated') and shown is not None:
        parts.append('own: "%s"' % x if isinstance(x, str) else 'own: %s' % x if x is not None else '')
    parts.append('mark: "extra field"')
    before = -1
    for part in parts:
        if rest.count(part) < 1:
            c.bad('%r: no %r in %r', spec, part, rest)
    for part in ('input variables: ', 'result: ', 'exception: ', 'traceback: ', 'mark: ', 'time of work'):
        if rest.count(part) > 1:
            c.bad('%r: %r several times in %r', spec, part, rest)
    c.eq(line.count('\n'), 1, 'lines')
    c.op()
    c.state(spec)


def numbers(c, spec):
    """The shown duration is the duration, to eight places."""
    out, handler, widths = setup()
    whole, places = spec
    for digits in itertools.product('019', repeat=places):
        text = whole + ('.' + ''.join(digits) if places else '')
        value = float(text)
        line = write(handler, out, {'time_of_work': value})
        m = re.search(r'time of work: (\S+) sec\.', line)
        if not m:
            c.bad('no duration in %r', line)
            continue
        if Decimal(m.group(1)) != Decimal(text):
            c.bad('the duration %r is shown as %r', text, m.group(1))
        if '.' in m.group(1) and m.group(1).endswith('0'):
            c.bad('the duration %r is shown with zeros: %r', text, m.group(1))
        c.op()
    c.state(spec)


def level_names(c, ops):
    """All histories of naming levels: the shown name is a name of that level (the last one given, if it is still its name)."""
    out, handler, widths = setup()
    names = {'INFO': 20, 'first': 30, 'second': 30, 'a_very_long_name': 40, 'moved': 51}
    last = {20: 'INFO', 30: 'second', 40: 'a_very_long_name', 51: 'moved'}
    for op in ops:
        if op != 'line':
            name, value = op
            config.levels(**{name: value})
            names[name] = value
            last[value] = name
        for level in (1, 2, 3, 20):
            line = write(handler, out, {'level': level})
            shown = line.split(' | ')[1].strip()
            allowed = [n for n, v in names.items() if v == level]
            if last.get(level) in allowed:
                allowed = [last[level]]
            if shown not in (allowed or [str(level)]):
                c.bad('after %r the level %d is shown as %r instead of %r', ops, level, shown, allowed or [str(level)])
            c.op()
    c.state(tuple(sorted(names.items())))


class Together(Program):
    """The first lines of one handler are formatted by several threads at once."""
    trace = (P + 'handlers/file', P + 'core/stores/levels.py')

    def __init__(self, count):
        self.count = count
        self.name = 'together-%d' % count

    def run(self, k):
        with calm():
            out, handler, widths = setup()
            items = []
            for n in range(self.count):
                item = LogItem()
                item.set_data({'time': WHEN, 'level': 20, 'success': True, 'auto': False, 'message': 'm%d' % n, 'x': n})
                items.append(item)
        ts = [thread(handler, item) for item in items[1:]]
        handler(items[0])
        for t in ts:
            t.join()
        want = ['[%s] | %s | SUCCESS | MANUAL | "m%d" | where: ? | x: %d' % (WHEN, '{:^16}'.format('INFO'), n, n) for n in range(self.count)]
        k.eq(sorted(out.getvalue().splitlines()), want, 'lines')


def run(ctx):
    head = ORDER[:8]
    ctx.cases('presence', (s for n in range(len(head) + 1) for s in itertools.combinations(head, n)), presence, managed=False)
    ctx.cases('pairs', itertools.combinations(ORDER, 2), pairs, managed=False)
    ctx.cases('triples', itertools.combinations(ORDER, 3), triples, managed=False)
    ctx.cases('unusual', (s for n in ((1, 2, 3) if ctx.thorough else (1, 2)) for s in itertools.combinations(FIELDS, n)), unusual, managed=False, timeout=300)
    ctx.cases('truthful', itertools.product(('decorated', 'decorated-fail', 'manual', 'manual-fail', 'with', 'with-fail'), ('int', 'text', 'none', 'float', 'object', 'list', 'mute', 'bool'), (None, 'svc')), truthful, managed=False)
    ctx.cases('numbers', [(w, p) for w in ('0', '1', '9', '10', '100', '120', '3600', '100000') for p in range(0, 9 if ctx.thorough else 7)], numbers, managed=False, timeout=300)
    ops = [(n, v) for n in ('alpha', 'longer_than_any_name_before_it', 'INFO') for v in (1, 2, 20)] + ['line']
    ctx.cases('level names', (s for n in range(1, 5 if ctx.thorough else 4) for s in itertools.product(ops, repeat=n)), level_names, managed=False)
    ctx.explore(Together(2), 2, 2)
    ctx.explore(Together(3), 1, 2)
