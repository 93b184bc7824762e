"""C22: logger misuse is harmless in silent mode and reported in strict mode."""
import datetime
import functools
import itertools
import sys
import time

from polog import config, field, handle_log, log, message

from checks.common import P

FIELDS = ('message', 'function', 'module', 'class', 'exception_type', 'exception_message', 'local_variables', 'success', 'level', 'unk', 'unk2', 'reg', 'auto', 'time', 'service_name')


def func(x):
    pass


class Klass:
    def __call__(self):
        pass

    def __str__(self):
        return 'a callable object'


class Mute:
    """Callable, has no name and cannot be printed."""
    def __call__(self):
        pass

    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Prickly(Exception):
    """Cannot be compared."""
    def __eq__(self, other):
        raise TypeError('incomparable')

    def __ne__(self, other):
        raise TypeError('incomparable')

    def __hash__(self):
        return 1


class MuteError(Exception):
    def __str__(self):
        raise ValueError('no text')


class Text(str):
    pass


class Weird:
    """A value of an unknown field."""
    def __eq__(self, other):
        raise TypeError

    def __bool__(self):
        raise TypeError

    __hash__ = None


OK, BAD, ANY = 'ok', 'bad', object()
VALUE = ValueError('v')
PRICKLY = Prickly('p')
MUTE = MuteError('m')
W = Weird()
PART = functools.partial(func, 1)
KOBJ, MOBJ = Klass(), Mute()

# field -> list of (label, value, verdict, what the record must contain)
TABLE = {
    'message': [('text', 'named', OK, {'message': 'named'}), ('empty', '', OK, {'message': ''}), ('number', 5, BAD, {}), ('bytes', b'x', BAD, {}), ('none', None, BAD, {}), ('list', ['x'], BAD, {})],
    'function': [('name', 'fname', OK, {'function': 'fname'}), ('function', func, OK, {'function': 'func', 'module': func.__module__}), ('partial', PART, OK, {'function': ANY, 'module': ANY}),
                 ('object', KOBJ, OK, {'function': ANY, 'module': ANY}), ('mute', MOBJ, OK, {'function': ANY, 'module': ANY}), ('number', 5, BAD, {}), ('list', [], BAD, {})],
    'module': [('name', 'mname', OK, {'module': 'mname'}), ('number', 7, BAD, {}), ('module', sys, BAD, {})],
    'class': [('name', 'cname', OK, {'class': 'cname'}), ('class', Klass, OK, {'class': 'Klass'}), ('object', KOBJ, BAD, {}), ('number', 1, BAD, {})],
    'exception': [('name', 'ename', OK, {'exception_type': 'ename', 'success': False}), ('value', VALUE, OK, {'exception_type': 'ValueError', 'exception_message': 'v', 'success': False}),
                  ('mute', MUTE, OK, {'exception_type': 'MuteError', 'exception_message': ANY, 'success': False}), ('prickly', PRICKLY, OK, {'exception_type': 'Prickly', 'exception_message': 'p', 'success': False}),
                  ('class', ValueError, BAD, {}), ('number', 5, BAD, {}), ('none', None, BAD, {})],
    'local_variables': [('text', 'vars', OK, {'local_variables': 'vars'}), ('dict', {'a': 1}, BAD, {}), ('none', None, BAD, {})],
    'success': [('true', True, OK, {'success': True}), ('false', False, OK, {'success': False}), ('one', 1, BAD, {}), ('text', 'True', BAD, {}), ('none', None, BAD, {})],
    'level': [('number', 15, OK, {'level': 15}), ('zero', 0, OK, {'level': 0}), ('name', 'lname', OK, {'level': 33}), ('unknown', 'noname', BAD, {}), ('negative', -5, BAD, {}), ('bool', True, BAD, {}),
              ('float', 5.5, BAD, {}), ('list', [], BAD, {})],
    'reg': [('text', 'r', OK, {'reg': 'r'}), ('number', 5, OK, {'reg': 5})],
    'unk': [('text', 'u', 'unknown', {'unk': 'u'}), ('weird', W, 'unknown', {'unk': W})],
    'unk2': [('list', [1], 'unknown', {'unk2': [1]})],
}
ALIASES = {'vars': 'local_variables', 'locals': 'local_variables', 'e': 'exception', 'class_': 'class'}
OPTIONS = [(key, ALIASES.get(key, key), i) for key in list(TABLE) + list(ALIASES) for i in range(len(TABLE[ALIASES.get(key, key)]))]
POSITIONAL = {
    'nothing': ((), OK, None), 'text': (('positional',), OK, 'positional'), 'same': (('named',), OK, 'named'), 'number': ((5,), BAD, None), 'none': ((None,), BAD, None),
    'surplus': (('positional', 'more'), BAD, 'positional'), 'surplus3': (('positional', 5, None), BAD, 'positional'), 'bad-surplus': ((5, 'more'), BAD, None),
}


def expect(pos, options, unknown, target):
    """(is there misuse?, the possible values of every field). A field given twice with different values may have either."""
    args, verdict, text = POSITIONAL[pos]
    misuse = verdict == BAD
    got = {}
    effects = {}
    if text is not None:
        got['message'] = [text]
        effects['message'] = [{'message': text}]
    for key, name, i in options:
        label, value, verdict, effect = TABLE[name][i]
        if target == 'message' and name == 'function':
            misuse = True
            continue
        if verdict == BAD:
            misuse = True
            continue
        if verdict == 'unknown' and not unknown:
            misuse = True
            continue
        if name in got and got[name] != []:
            if not any(v is value or (type(v) is type(value) and type(v) in (str, bool, int) and v == value) for v in got[name]):
                if not (name == 'class' and effects[name][0] == effect):
                    misuse = True
            elif name == 'exception' and isinstance(value, Prickly):
                misuse = None                    # the same incomparable object twice: either is fine
        got.setdefault(name, []).append(value)
        effects.setdefault(name, []).append(effect)
    return misuse, effects


def judge(c, what, record, effects, target, levels):
    """Compare the record with the possible effects of the accepted arguments."""
    base = {f: None for f in FIELDS}
    if target == 'message':
        base.update(function='target', module=__name__, success=True, level=levels[0], auto=True, message='original')
    else:
        base.update(auto=False)
    got = dict(record)
    base['service_name'] = 'the_service'
    base['time'] = got['time']
    if not isinstance(got['time'], datetime.datetime) or abs(got['time'].timestamp() - time.time()) > 60:
        c.bad('%s: the time of the record is %r', what, got['time'])
    loose = set()
    for name, list_of in effects.items():
        for f in set().union(*[set(e) for e in list_of]):
            if f == 'success' and name == 'exception' and target == 'message':
                continue
            allowed = [e.get(f, ANY) for e in list_of]
            if f == 'module' and name == 'function' and 'module' in effects:
                allowed += [e['module'] for e in effects['module']]
            if f == 'module' and name == 'module' and any('module' in e for e in effects.get('function', ())):
                continue
            if f == 'success' and name == 'success' and 'exception' in effects and target != 'message':
                continue
            loose.add(f)
            value = got[f]
            if not any(a is ANY or a is value or (type(a) is type(value) and type(a) is not Weird and a == value) for a in allowed):
                c.bad('%s: the field %s is %r instead of %r', what, f, value, allowed)
    for f in FIELDS:
        if f in loose:
            continue
        if target != 'message' and f == 'level':
            ok = got['success'] if got['success'] is not None else True
            want = levels[0] if ok else levels[1]
        else:
            want = base[f]
        if got[f] is not want and got[f] != want:
            c.bad('%s: the field %s is %r instead of %r', what, f, got[f], want)


def deliver(target, args, kwargs):
    """Returns the exception the call raised, if any."""
    if target == 'handle':
        try:
            if handle_log(*args, **kwargs) is not None:
                return 'returned something'
        except Exception as e:    # noqa
            return e
        return None
    if target == 'named':
        try:
            handle_log.lname(*args, **kwargs)
        except Exception as e:    # noqa
            return e
        return None
    if target == 'router':
        errors = []
        old = sys.unraisablehook
        sys.unraisablehook = lambda x: errors.append(x.exc_value)
        try:
            log(*args, **kwargs)
        except Exception as e:    # noqa
            return e
        finally:
            sys.unraisablehook = old
        return errors[0] if errors else None
    outcome = []

    @log(message='original')
    def target_function():
        try:
            (message if target == 'message' else log.message)(*args, **kwargs)
        except Exception as e:    # noqa
            outcome.append(e)
    target_function.__wrapped__ if False else None
    target_function()
    return outcome[0] if outcome else None


def combination(c, spec):
    target, pos, source, start, stop = spec
    combos = tuple(itertools.islice(SOURCES[source](), start, stop))
    out = []

    def h(item):
        out.append({f: item.get(f) for f in FIELDS})
    config.add_handlers(h)
    config.levels(lname=33)
    config.add_in_place_fields(reg=field(lambda item: None)) if hasattr(config, 'add_in_place_fields') else config.add_fields(reg=field(lambda item: None))
    config.set(level=0, service_name='the_service')
    args = POSITIONAL[pos][0]
    for silent in (True, False):
        for unknown in (True, False):
            levels = (3, 7) if silent == unknown else (7, 3)         # the level of errors need not be the greater one
            config.set(silent_internal_exceptions=silent, unknown_fields_in_handle_logs=unknown, default_level=levels[0], default_error_level=levels[1])
            for combo in combos:
                kwargs = {key: TABLE[name][i][1] for key, name, i in combo}
                what = '%s(%s) %s%s' % (target, ', '.join([pos] + ['%s=%s' % (k, TABLE[n][i][0]) for k, n, i in combo]), 'silent' if silent else 'strict', '' if unknown else ', unknown fields forbidden')
                misuse, effects = expect(pos, combo, unknown, 'message' if target in ('message', 'log.message') else target)
                del out[:]
                error = deliver(target, args, kwargs)
                c.op()
                c.state(target, pos, len(combo), misuse, silent, unknown)
                m = target in ('message', 'log.message')
                if misuse is None:
                    continue
                if silent or not misuse:
                    if error is not None:
                        c.bad('%s: raised %r', what, error)
                        continue
                    if len(out) != 1:
                        c.bad('%s: %d records', what, len(out))
                        continue
                    if m:
                        out[0]['function'] = 'target' if out[0]['function'] == 'target_function' else out[0]['function']
                    judge(c, what, out[0], effects, 'message' if m else target, levels)
                else:
                    if error is None:
                        c.bad('%s: nothing was raised', what)
                    if not m and out:
                        c.bad('%s: a record was written: %r', what, out[0])
                    if m and len(out) != 1:
                        c.bad('%s: %d records', what, len(out))
                    elif m:
                        out[0]['function'] = 'target' if out[0]['function'] == 'target_function' else out[0]['function']
                        judge(c, what, out[0], {}, 'message', levels)
                if len(c.viol) > 5:
                    return


def ordered():
    """Sets of keyword arguments, in every order where aliases collide."""
    yield ()
    for o in OPTIONS:
        yield (o,)
    for a, b in itertools.combinations(OPTIONS, 2):
        if a[0] == b[0]:
            continue
        yield (a, b)
        if a[1] == b[1] or {a[1], b[1]} <= {'function', 'module'}:
            yield (b, a)


def triples():
    for t in itertools.combinations(OPTIONS, 3):
        if len({x[0] for x in t}) == 3:
            yield t


def quadruples():
    for t in itertools.combinations(OPTIONS, 4):
        if len({x[0] for x in t}) == 4:
            yield t


SOURCES = {'pairs': ordered, 'triples': triples, 'quadruples': quadruples}
TOTAL = {name: sum(1 for _ in source()) for name, source in SOURCES.items()}


def chunks(source, n):
    for start in range(0, TOTAL[source], n):
        yield source, start, min(start + n, TOTAL[source])


def combination_cases(thorough):
    for target in ('handle', 'router', 'message', 'log.message'):
        for pos in POSITIONAL:
            if target == 'router' and POSITIONAL[pos][1] == BAD:
                continue              # the universal function decides by its positional argument what it is asked to do
            if target == 'log.message' and pos != 'text' and not thorough:
                continue
            for part in chunks('pairs', 300):
                yield (target, pos) + part
            if target != 'log.message':
                for part in chunks('triples', 1000):
                    yield (target, pos) + part
            if thorough and target != 'log.message' and pos in ('nothing', 'text', 'surplus'):
                for part in chunks('quadruples', 5000):
                    yield (target, pos) + part


def positional_of_router(c, spec):
    """What the universal function cannot recognise is reported at once, in both modes, and nothing is written."""
    silent, args = spec
    out = []

    def h(item):
        out.append(1)
    config.add_handlers(h)
    config.set(silent_internal_exceptions=silent, level=0)
    values = {'number': 5, 'none': None, 'list': [], 'text': 'x', 'bytes': b''}
    try:
        log(*[values[a] for a in args])
        raised = False
    except Exception:    # noqa
        raised = True
    ok = args in ((), ('text',))
    c.eq((raised, len(out)), (not ok, 1 if ok else 0), 'log(%s): (raised, records)' % ', '.join(args))
    c.op()


def sequences(c, ops):
    """Misuse leaves nothing behind: the following calls behave as if it had not happened."""
    out = []

    def h(item):
        out.append((item.get('message'), item.get('success'), item.get('level'), item.get('unk')))
    config.add_handlers(h)
    config.set(level=0, default_level=3, default_error_level=7, silent_internal_exceptions=False)
    calls = {
        'good': (lambda: handle_log('good', level=5), [('good', None, 5, None)]),
        'bad': (lambda: handle_log('bad', level='none', success=1, unk=3), None),
        'surplus': (lambda: handle_log('bad', 'x', unk=3), None),
        'exception': (lambda: handle_log('e', e=ValueError('x')), [('e', False, 7, None)]),
        'unknown': (lambda: handle_log('u', unk=5), [('u', None, 3, 5)]),
    }

    @log
    def edited():
        message('edited', success=False)
        try:
            message('wrong', success=5, unk=7)
        except ValueError:
            pass
    for n, op in enumerate(ops):
        del out[:]
        if op == 'edit':
            edited()
            c.eq(out, [('edited', False, 3, None)], 'records of step %d of %r' % (n, ops))
        else:
            fn, want = calls[op]
            try:
                fn()
                raised = False
            except Exception:    # noqa
                raised = True
            c.eq((raised, out), (want is None, want or []), '(raised, records) of step %d of %r' % (n, ops))
        c.op()
    c.state(ops)


def run(ctx):
    ctx.cases('combinations', combination_cases(ctx.thorough), combination, managed=False)
    names = ('number', 'none', 'list', 'text', 'bytes')
    ctx.cases('router', [(s, a) for s in (True, False) for n in (0, 1, 2) for a in itertools.product(names, repeat=n)], positional_of_router, managed=False)
    ctx.cases('sequences', itertools.product(('good', 'bad', 'surplus', 'exception', 'unknown', 'edit'), repeat=4 if ctx.thorough else 3), sequences, managed=False)
