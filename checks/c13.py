"""C13: settings are always valid and conflict-free; bad changes have no effect."""
import builtins
import itertools
import json
import logging
import math
import threading
import time
import types

from polog import ass, config, field, handle_log, log, unlog
from polog.core.stores.settings.settings_store import SettingsStore

from checks import volume
from checks.common import P, Program, flush, handler, thread
from mc.sched import calm

DEFAULTS = {
    'pool_size': 0, 'max_queue_size': 0, 'level': 0, 'default_level': 1, 'default_error_level': 2, 'service_name': None, 'silent_internal_exceptions': False,
    'max_delay_before_exit': 1.0, 'time_quant': 0.01, 'delay_on_exit_loop_iteration_in_quants': 10, 'json_module': json, 'smart_assert_politic': 'if_debug', 'debug_mode': True, 'fields_intersection': False,
    'unknown_fields_in_handle_logs': True, 'deduplicate_errors': True, 'log_is_built_in': False, 'full_unlog': True, 'suppress_by_default': False,
    'suppress_exception_subclasses': True, 'integration_with_logging': True, 'logging_off': True, 'traceback_cutting': True,
}
OPAQUE = ('smart_assert_politic', )           # not stored as given; judged by its effect


def my_json(loads=True, dumps=True):
    m = types.ModuleType('my_json')
    if loads is not None:
        m.loads = json.loads if loads else 5
    if dumps is not None:
        m.dumps = (lambda *a, **k: json.dumps(*a, **k)) if dumps else 5
    return m


GOOD_JSON = my_json()
BOOLS = [k for k, v in DEFAULTS.items() if isinstance(v, bool)]
GOOD = {k: [True, False] for k in BOOLS}
GOOD.update({
    'pool_size': [0, 1, 2, 5], 'max_queue_size': [0, 1, 2, 50], 'level': [0, 1, 7, 'aaa', 'bbb'], 'default_level': [0, 3, 'aaa', 'bbb'],
    'default_error_level': [0, 4, 'aaa', 'bbb'], 'service_name': [None, 'name', 'other_name', '_x', 'имя'], 'max_delay_before_exit': [0, 0.0, 5, 0.25, 1e3],
    'time_quant': [1, 0.5, 1e-3], 'delay_on_exit_loop_iteration_in_quants': [1, 2, 100], 'json_module': [json, GOOD_JSON], 'smart_assert_politic': ['all', 'if_debug'],
})
JUNK = [None, object(), [], {}, b'x', 'x y', -1, -0.5, math.nan, (1,), 3 + 4j, int]
BAD = {k: JUNK + [0, 1, 2, 'True', ''] for k in BOOLS}
BAD.update({
    'pool_size': [x for x in JUNK] + [1.0, 0.5, '1', ''], 'max_queue_size': [x for x in JUNK] + [1.0, 0.0, '1', ''],
    'level': [x for x in JUNK if x != 'x y'] + [1.0, 'nosuch', 'x y', '', True], 'default_level': JUNK + [1.0, 'nosuch', ''], 'default_error_level': JUNK + [2.0, 'nosuch', ''],
    'service_name': [x for x in JUNK if x is not None] + [5, '', '1a', 'a-b', 'a b', ' a'], 'max_delay_before_exit': JUNK + ['1', '', '0.5'],
    'time_quant': JUNK + [0, 0.0, '1', ''], 'delay_on_exit_loop_iteration_in_quants': JUNK + [0, 0.0, 1.0, 0.5, '1', ''], 'json_module': JUNK + [math, 'json', 5, my_json(loads=None), my_json(dumps=None), my_json(loads=False), my_json(dumps=False)],
    'smart_assert_politic': JUNK + ['ALL', '', 'never', 1, True],
})
UNKNOWN = ['nosuch', 'Level', 'pool', '', 'points', 'set', '__init__', 'lock']
NAMES = {'aaa': 3, 'bbb': 8}


class Model:
    def __init__(self):
        self.s = dict(DEFAULTS)

    def conflict(self, s):
        return (s['pool_size'] == 0 and s['max_queue_size'] != 0) or (s['logging_off'] and not s['integration_with_logging'])

    def accepts(self, key, value):
        if key not in self.s:
            return False
        if any(value is b for b in BAD[key]) or (isinstance(value, float) and math.isnan(value)):
            return False
        new = dict(self.s)
        new[key] = NAMES.get(value, value) if key in ('level', 'default_level', 'default_error_level') else value
        return not self.conflict(new)

    def put(self, key, value):
        self.s[key] = NAMES.get(value, value) if key in ('level', 'default_level', 'default_error_level') else value


def values(c, m, what):
    """What the settings say, and whether this is a legal combination."""
    store = SettingsStore()
    for k, v in m.s.items():
        if k in OPAQUE:
            continue
        got = store[k]
        if got is not v and (got != v or type(got) is not type(v)):
            c.bad('%s: the setting %s is %r, expected %r', what, k, got, v)


class Field:
    def __init__(self, value):
        self.value = value

    def get_data(self, item):
        return self.value


class World:
    """Behaviour that depends on the settings."""

    def __init__(self):
        self.out = out = []
        me = threading.get_ident()
        config.levels(aaa=3, bbb=8)
        config.add_handlers(handler(lambda i: out.append((dict((k, i[k]) for k in i), threading.get_ident() == me))))
        config.add_engine_fields(clash=field(lambda i: 'engine'))
        self.seen = seen = []

        class Std(logging.Handler):
            def emit(self, record):
                seen.append(record.getMessage())
        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
        logging.root.addHandler(Std())

        @unlog
        def banned():
            log('from banned', level=100)
        self.banned = banned

    def drain(self, pool):
        if pool:
            # a reload waits for the records; the size is put back afterwards
            q = SettingsStore()['max_queue_size']
            config.set(pool_size=pool + 1)
            config.set(pool_size=pool)
        r = list(self.out)
        del self.out[:]
        return r

    def check(self, c, m, what):
        s = m.s
        pool = s['pool_size']
        log('plain', clash='mine')
        got = self.drain(pool)
        want = 1 if s['default_level'] >= s['level'] else 0
        if len(got) != want:
            c.bad('%s: %d records of level %s at level %s', what, len(got), s['default_level'], s['level'])
        elif want:
            rec, main = got[0]
            c.eq((rec['level'], rec.get('service_name'), rec['clash']), (s['default_level'], s['service_name'], 'engine' if s['fields_intersection'] else 'mine'), what + ': level, service name, field')
            c.eq(main, pool == 0, what + ': the handler runs in the logging thread')
        log('failed', exception='Name', level=100)
        log('error', success=False)
        got = self.drain(pool)
        c.eq([r['level'] for r, _ in got], [100] + [s['default_error_level']] * (s['default_error_level'] >= s['level']), what + ': levels of failures')
        # misuse
        raised = None
        try:
            handle_log('text', success='wrong', level=100)
        except Exception as e:
            raised = e
        c.eq((raised is None, len(self.drain(pool))), (s['silent_internal_exceptions'], int(s['silent_internal_exceptions'])), what + ': misuse is silent, and recorded')
        raised = None
        try:
            handle_log('text', unheard=1, level=100)
        except Exception as e:
            raised = e
        got = self.drain(pool)
        ok = s['unknown_fields_in_handle_logs']
        c.eq((raised is None, len(got), bool(got) and 'unheard' in got[0][0]), (ok or s['silent_internal_exceptions'], int(ok or s['silent_internal_exceptions']), ok), what + ': unknown fields')
        # bans, blocks, decorators
        self.banned()
        c.eq(len(self.drain(pool)), 0 if s['full_unlog'] else 1, what + ': manual records of a banned function')
        for cm, exc, swallow in ((lambda: log('b', level=100), KeyError, s['suppress_by_default']), (lambda: log('b', level=100).suppress(LookupError), KeyError, s['suppress_exception_subclasses'])):
            try:
                with cm():
                    raise exc('x')
                left = False
            except KeyError:
                left = True
            c.eq(left, not swallow, what + ': an exception leaves the block')
        self.drain(pool)

        @log(level=100, errors_level=100)
        def inner():
            raise KeyError('x')

        @log(level=100, errors_level=100)
        def outer():
            inner()
        try:
            outer()
        except KeyError:
            pass
        c.eq(len(self.drain(pool)), 1 if s['deduplicate_errors'] else 2, what + ': records of one exception')
        # asserts
        old = None
        try:
            ass(False, 'assertion')
        except AssertionError as e:
            old = e
        n = len([r for r, _ in self.drain(pool) if r.get('message') == 'assertion'])
        logs = (s['smart_assert_politic'] == 'all' or not s['debug_mode']) and s['default_error_level'] >= s['level']
        c.eq((old is not None, n), (s['debug_mode'], int(logs)), what + ': the assert raises, and is recorded')
        # the standard library
        del self.seen[:]
        logging.root.setLevel(0)
        logging.log(100, 'std')
        n = len([r for r, _ in self.drain(pool) if r.get('message') == 'std'])
        c.eq((n, len(self.seen)), (int(s['integration_with_logging']), 0 if s['logging_off'] else 1), what + ': standard records here and there')
        c.eq(getattr(builtins, 'log', None) is log, s['log_is_built_in'], what + ': log is built in')


def attempt(c, m, kw, what):
    """One call of config.set. Several settings in one call are applied one after another, up to the first bad one."""
    raised = None
    try:
        config.set(**kw)
    except Exception as e:
        raised = e
    bad = False
    for k, v in kw.items():
        if not m.accepts(k, v):
            bad = True
            break
        m.put(k, v)
    c.op()
    if bad and raised is None:
        c.bad('%s: the bad change %r was accepted', what, kw)
    if not bad and raised is not None:
        c.bad('%s: the good change %r was refused: %r', what, kw, raised)
    if m.conflict(m.s):
        raise AssertionError('the model is in conflict')


# -- one setting: every value after every value -------------------------------------------------------------------
def pairs(c, spec):
    key, i, probe = spec
    w = World() if probe else None
    if not probe:
        config.levels(aaa=3, bbb=8)
    m = Model()
    if key == 'max_queue_size':
        attempt(c, m, {'pool_size': 2}, 'preparation')
    first = GOOD[key][i]
    attempt(c, m, {key: first}, 'start')
    values(c, m, '%s=%r' % (key, first))
    if probe:
        w.check(c, m, 'after %s=%r' % (key, first))
    for bad in BAD[key]:
        what = '%s=%r after %r' % (key, bad, first)
        attempt(c, m, {key: bad}, what)
        values(c, m, what)
    for bad in UNKNOWN:
        attempt(c, m, {bad: first}, 'unknown setting %r' % bad)
    values(c, m, 'after unknown settings')
    attempt(c, m, {'started': False}, 'started=False')
    if probe:
        w.check(c, m, 'after bad values of %s' % key)
    for nxt in GOOD[key]:
        what = '%s=%r after %r' % (key, nxt, first)
        attempt(c, m, {key: nxt}, what)
        values(c, m, what)
        if probe:
            w.check(c, m, what)
        attempt(c, m, {key: first}, 'back to %r' % (first,))
        values(c, m, 'back to %r' % (first,))
    c.state(key, i)


# -- sequences over interdependent settings -----------------------------------------------------------------------
ENGINE_OPS = {
    'p0': {'pool_size': 0}, 'p1': {'pool_size': 1}, 'p3': {'pool_size': 3}, 'p-': {'pool_size': -1}, 'q0': {'max_queue_size': 0}, 'q1': {'max_queue_size': 1},
    'q4': {'max_queue_size': 4}, 'q-': {'max_queue_size': -1}, 'p2q2': {'pool_size': 2, 'max_queue_size': 2}, 'q2p2': {'max_queue_size': 2, 'pool_size': 2},
    'q0p0': {'max_queue_size': 0, 'pool_size': 0}, 'p0q0': {'pool_size': 0, 'max_queue_size': 0}, 'log': None,
    'lp-': {'level': 0, 'pool_size': -1}, 'p4x': {'pool_size': 4, 'nosuch': 1},
}
LOGGING_OPS = {
    'i0': {'integration_with_logging': False}, 'i1': {'integration_with_logging': True}, 'o0': {'logging_off': False}, 'o1': {'logging_off': True}, 'ix': {'integration_with_logging': 0},
    'ox': {'logging_off': 1}, 'o0i0': {'logging_off': False, 'integration_with_logging': False}, 'i1o1': {'integration_with_logging': True, 'logging_off': True},
    'o1i1': {'logging_off': True, 'integration_with_logging': True}, 'i0o0': {'integration_with_logging': False, 'logging_off': False}, 'log': None,
}


def engine_effect(c, m, what):
    """How many records are handled at once, and how many are accepted without waiting."""
    p, q = m.s['pool_size'], m.s['max_queue_size']
    state = {'now': 0, 'max': 0, 'threads': set()}
    done = []
    me = threading.get_ident()

    def slow(item):
        if item.get('message') != 'probe':
            return
        state['now'] += 1
        state['max'] = max(state['max'], state['now'])
        state['threads'].add(threading.get_ident() == me)
        time.sleep(1)
        state['now'] -= 1
        done.append(1)
    config.add_handlers(probing=handler(slow))
    n = 10
    t0 = time.time()
    at_once = 0
    for i in range(n):
        log('probe', level=100)
        if time.time() - t0 < 0.5:
            at_once += 1
    if p == 0:
        want = 0
    else:
        want = n if q == 0 else min(n, p + q)
    while len(done) < n:
        time.sleep(0.5)
        if time.time() - t0 > 100:
            c.bad('%s: only %d of %d records were handled', what, len(done), n)
            break
    c.eq((at_once, state['max'], state['threads']), (want, max(p, 1), {p == 0}), '%s, pool_size=%d max_queue_size=%d: accepted at once, handled at once, by the logging thread' % (what, p, q))
    config.delete_handlers('probing')


def sequence(c, spec):
    kind, ops = spec
    m = Model()
    if kind == 'engine':
        for n, op in enumerate(ops):
            what = 'step %d of %s' % (n, ops)
            kw = ENGINE_OPS[op]
            if kw is None:
                log('m')
            else:
                attempt(c, m, kw, what)
            values(c, m, what)
        engine_effect(c, m, 'after %s' % (ops,))
    else:
        w = World()
        for n, op in enumerate(ops):
            what = 'step %d of %s' % (n, ops)
            kw = LOGGING_OPS[op]
            if kw is None:
                logging.log(100, 'x')
            else:
                attempt(c, m, kw, what)
            values(c, m, what)
        del w.out[:]
        w.check(c, m, 'after %s' % (ops,))
    c.state(kind, m.s['pool_size'], m.s['max_queue_size'], m.s['integration_with_logging'], m.s['logging_off'])


def mixed(c, spec):
    """Settings that have nothing to do with each other do not disturb each other."""
    m = Model()
    w = World()
    for key, good, i in spec:
        attempt(c, m, {key: (GOOD if good else BAD)[key][i]}, 'in %r' % (spec,))
    values(c, m, 'after %r' % (spec,))
    w.check(c, m, 'after %r' % (spec,))
    c.state(tuple(k[0] for k in spec))


def mixed_specs(ctx):
    keys = [k for k in DEFAULTS if k not in ('max_delay_before_exit', 'time_quant', 'delay_on_exit_loop_iteration_in_quants', 'json_module')]
    for a, b in itertools.permutations(keys, 2):
        for x in (-2, -1):
            for y in ((1, -2), (1, -1), (0, 0)):
                yield (a, 1, x), (b, *y)


# -- the json module in force --------------------------------------------------------------------------------------
def tagged(tag):
    m = types.ModuleType('json_' + tag)
    m.dumps = lambda *a, **k: tag + json.dumps(*a, **k)
    m.loads = lambda text, *a, **k: json.loads(text[text.index('@') + 1:], *a, **k)
    return m


JSONS = {'': json, 'one@': tagged('one@'), 'two@': tagged('two@')}


def json_in_force(c, spec):
    """Every text in JSON is made by the module that is set at the moment."""
    order, coro = spec
    out = []
    config.set(level=0, deduplicate_errors=False, pool_size=0)
    config.add_handlers(handler(lambda i: out.append({f: i.get(f) for f in ('result', 'input_variables', 'local_variables', 'traceback')})))

    def good(a, b=2):
        return a

    def bad(a):
        here = a
        raise ValueError(here)
    if coro:
        def wrap(f):
            async def g(*a, **k):
                return f(*a, **k)
            d = log(g)

            def call(*a, **k):
                try:
                    d(*a, **k).send(None)
                except StopIteration:
                    pass
            return call
    else:
        wrap = log
    good, bad = wrap(good), wrap(bad)
    for tag in order:
        config.set(json_module=JSONS[tag])
        del out[:]
        c.op()
        good(1, b='x')
        try:
            bad('y')
        except ValueError:
            pass
        try:
            with log('block'):
                bad_one = 1
                raise ValueError(bad_one)
        except ValueError:
            pass
        c.eq(len(out), 3, 'records')
        for r, have in zip(out, (('result', 'input_variables'), ('input_variables', 'local_variables', 'traceback'), ('traceback',))):
            for f, text in r.items():
                if text is None:
                    if f in have:
                        c.bad('no %s with the json module %r', f, tag)
                    continue
                try:
                    ok = text.startswith(tag) and '@' not in text[len(tag):][:1] and json.loads(text[len(tag):]) is not None
                except ValueError:
                    ok = False
                if not ok:
                    c.bad('%s after %r: %r is not made by the module %r', f, order, text[:60], tag)
    c.state(order)


# -- level names ---------------------------------------------------------------------------------------------------
def names(c, spec):
    name, value, ok = spec
    config.levels(known=5)
    out = []
    config.add_handlers(handler(lambda i: out.append(i['level'])))
    raised = None
    try:
        config.levels(**{name: value})
    except Exception as e:
        raised = e
    c.op()
    c.eq(raised is None, ok, 'level %r=%r accepted' % (name, value))
    config.set(silent_internal_exceptions=True)
    log('m', level='known')
    c.eq(out, [value if ok and name == 'known' else 5], 'records with the known level after %r=%r' % (name, value))
    log('m', level=name)
    if ok:
        c.eq(out[-1], value, 'level of a record after %r=%r' % (name, value))
    elif name != 'known':
        c.eq(out[-1], DEFAULTS['default_level'], 'level of a record with the refused name %r' % name)


NAME_SPECS = [('good', 7, True), ('known', 9, True), ('known', 0, True), ('GOOD', 0, True), ('known', -1, False), ('known', 'x', False), ('known', 1.5, False), ('known', None, False),
              ('good', -1, False), ('_x', 1, False), ('__x', 1, False), ('a b', 1, False), ('1a', 1, False), ('', 1, False), ('message', 1, False), ('suppress', 1, False)]


# -- concurrent changes --------------------------------------------------------------------------------------------
class Race(Program):
    """Two conflicting changes at once: at most one wins, and nobody ever sees an illegal value."""

    def __init__(self, kind, start, one, two, trace):
        self.start, self.one, self.two = start, one, two
        self.name = 'race-%s' % kind
        self.trace = trace

    def run(self, k):
        with calm():
            for kw in self.start:
                config.set(**kw)
            log('warm up')
        m = Model()
        for kw in self.start:
            for key, v in kw.items():
                m.put(key, v)
        res = {}

        def change(who, kw):
            try:
                config.set(**kw)
                res[who] = True
            except Exception:
                res[who] = False
        t = thread(change, 'a', self.one)
        change('b', self.two)
        t.join()
        store = SettingsStore()
        final = {key: store[key] for key in set(self.one) | set(self.two)}
        # the outcome must be that of some order of the two changes
        possible = []
        for order in (('a', 'b'), ('b', 'a')):
            mm = Model()
            mm.s = dict(m.s)
            r = {}
            for who in order:
                kw = self.one if who == 'a' else self.two
                r[who] = True
                for key, v in kw.items():
                    if not mm.accepts(key, v):
                        r[who] = False
                        break
                    mm.put(key, v)
            possible.append((r, {key: mm.s[key] for key in final}))
        k.observe(sorted(res.items()), sorted(final.items()))
        k.check((res, final) in possible, 'the changes %r and %r ended with %r %r, possible: %r', self.one, self.two, res, final, possible)
        log('afterwards')


class Reader(Program):
    """A refused change is never visible, not even for a moment."""

    def __init__(self, kind, start, key, value, trace, probe=()):
        self.start, self.key, self.value = start, key, value
        self.name = 'reader-%s' % kind
        self.trace = trace

    def run(self, k):
        with calm():
            for kw in self.start:
                config.set(**kw)
            log('warm up')
            store = SettingsStore()
            legal = store[self.key]
        seen = []

        def read():
            for _ in range(2):
                seen.append(store[self.key])
        t = thread(read)
        try:
            config.set(**{self.key: self.value})
            k.bad('the bad change was accepted')
        except Exception:
            pass
        t.join()
        k.observe(tuple(map(repr, seen)))
        k.eq(seen, [legal] * 2, 'values seen by a reader')


def run(ctx):
    ctx.cases('values', [(k, i, False) for k in GOOD for i in range(len(GOOD[k]))], pairs)
    ctx.cases('effects', [(k, i, True) for k in GOOD for i in range(len(GOOD[k]))], pairs)
    small = ('p0', 'p1', 'p3', 'q0', 'q1', 'q4', 'log')

    def seqs():
        for n in range(1, 4):
            for ops in itertools.product(ENGINE_OPS, repeat=n):
                yield 'engine', ops
        for ops in itertools.product(ENGINE_OPS if ctx.thorough else small, repeat=4):
            yield 'engine', ops
        if ctx.thorough:
            for ops in itertools.product(small, repeat=5):
                yield 'engine', ops
        for n in range(1, ctx.pick(3, 4) + 1):
            for ops in itertools.product(LOGGING_OPS, repeat=n):
                yield 'logging', ops
    ctx.cases('sequences', seqs(), sequence)
    ctx.cases('independence', mixed_specs(ctx), mixed)
    ctx.cases('json', [(o, coro) for n in (1, 2, 3) for o in itertools.product(JSONS, repeat=n) for coro in (False, True)], json_in_force, managed=False)
    ctx.cases('level names', NAME_SPECS, names, managed=False)
    ST = (P + 'core/stores', P + 'config')
    race = lambda kind, start, one, two, trace=ST: Race(kind, start, one, two, trace)
    engine = [
        race('pool0-queue5', [{'pool_size': 2}], {'pool_size': 0}, {'max_queue_size': 5}),
        race('queue5-pool0', [{'pool_size': 2}], {'max_queue_size': 5}, {'pool_size': 0}),
        race('queue0-pool0', [{'pool_size': 2}, {'max_queue_size': 5}], {'max_queue_size': 0}, {'pool_size': 0}),
        race('pool2-queue5', [], {'pool_size': 2}, {'max_queue_size': 5}),
        race('off-no', [{'logging_off': False}], {'integration_with_logging': False}, {'logging_off': True}),
        race('no-off', [{'logging_off': False}], {'logging_off': True}, {'integration_with_logging': False}),
        race('back-off', [{'logging_off': False}, {'integration_with_logging': False}], {'integration_with_logging': True}, {'logging_off': True}),
        race('level', [], {'level': 5}, {'level': 'nosuch'}),
        race('levels', [], {'default_level': 5}, {'default_error_level': 7}),
    ]
    for r in engine:
        ctx.explore(r, 2 if 'engine' not in r.name and ('off' in r.name or 'level' in r.name) else 1, 2)
    wide = [race('wide-pool0-queue5', [{'pool_size': 2}], {'pool_size': 0}, {'max_queue_size': 5}, (P,)), race('wide-off', [{'logging_off': False}], {'integration_with_logging': False}, {'logging_off': True}, (P,))]
    for r in wide:
        ctx.explore(r, 1, 1)
    for kind, start, key, value in (('level', [{'level': 4}], 'level', 'nosuch'), ('level-', [{'level': 4}], 'level', -1), ('service', [{'service_name': 'x'}], 'service_name', 'a b'),
                                    ('pool', [{'pool_size': 1}, {'max_queue_size': 2}], 'pool_size', 0), ('queue', [], 'max_queue_size', 4), ('off', [{'logging_off': False}, {'integration_with_logging': False}], 'logging_off', True),
                                    ('integration', [], 'integration_with_logging', False), ('politic', [], 'smart_assert_politic', 'x')):
        ctx.explore(Reader(kind, start, key, value, ST), 2, 3)
    volume.run(ctx, 'C13')
