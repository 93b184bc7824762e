"""C21: the smart assert raises in debug mode and logs otherwise."""
import itertools

from polog import ass, config, field, log, unlog

from mc.sched import calm
from checks.common import P, Program, flush, thread


class Truth:
    """An object with a chosen truth value and text; both may fail, and its truth is asked for once."""

    def __init__(self, truth, text):
        self.truth, self.text, self.asked = truth, text, 0

    def __bool__(self):
        self.asked += 1
        if isinstance(self.truth, BaseException):
            raise self.truth
        return self.truth

    def __str__(self):
        if self.text is None:
            raise ValueError('no text')
        return self.text
    __repr__ = __str__


class Len:
    def __len__(self):
        return 0

    def __str__(self):
        return 'len'


# name -> (factory, true?)
EXPRESSIONS = {
    'True': (lambda: True, True), 'False': (lambda: False, False), 'None': (lambda: None, False), '0': (lambda: 0, False), '1': (lambda: 1, True), '0.0': (lambda: 0.0, False),
    'empty': (lambda: '', False), 'text': (lambda: 'x', True), '[]': (lambda: [], False), '[0]': (lambda: [0], True), 'len': (lambda: Len(), False),
    'object': (lambda: object(), True), 'yes': (lambda: Truth(True, 'yes'), True), 'no': (lambda: Truth(False, 'no'), False),
    'yes-mute': (lambda: Truth(True, None), True), 'no-mute': (lambda: Truth(False, None), False),
    'unbool': (lambda: Truth(TypeError('no bool'), 'unbool'), False), 'unbool-mute': (lambda: Truth(TypeError('no bool'), None), False),
    'nan': (lambda: float('nan'), True), 'zero-complex': (lambda: 0j, False), 'exception': (lambda: ValueError('x'), True),
}
# name -> (arguments, the text the message must be, None if any)
MESSAGES = {
    'nothing': (lambda: (), None), 'text': (lambda: ("It's bad.",), "It's bad."), 'empty': (lambda: ('',), ''), 'number': (lambda: (5,), '5'), 'none': (lambda: (None,), 'None'),
    'object': (lambda: (Truth(True, 'object text'),), 'object text'), 'mute': (lambda: (Truth(True, None),), None), 'unicode': (lambda: ('Ой \n %s {}',), 'Ой \n %s {}'),
    'exception': (lambda: (ValueError('in exception'),), 'in exception'), 'list': (lambda: ([1, 'a'],), "[1, 'a']"),
}


def listen():
    out = []

    def h(item):
        out.append({f: item.get(f) for f in ('message', 'success', 'level', 'exception_type', 'exception_message', 'auto')})
    config.add_handlers(h)
    return out


def one(c, out, debug, politic, ename, mname, what, pool=0):
    expression = EXPRESSIONS[ename][0]()
    args = MESSAGES[mname][0]()
    del out[:]
    raised = None
    try:
        result = ass(expression, *args)
        if result is not None:
            c.bad('%s: returned %r', what, result)
    except BaseException as e:    # noqa
        raised = e
    if pool:
        config.set(pool_size=pool + 1)
        config.set(pool_size=pool)
    true = EXPRESSIONS[ename][1]
    text = MESSAGES[mname][1]
    if mname == 'nothing':
        try:
            text = str(expression)
        except ValueError:
            text = None
    if true:
        c.eq((raised, out), (None, []), what + ': a true expression')
    else:
        if debug:
            if type(raised) is not AssertionError:
                c.bad('%s: raised %r instead of an AssertionError', what, raised)
            elif text is not None and str(raised) != text:
                c.bad('%s: the message of the error is %r instead of %r', what, str(raised), text)
        elif raised is not None:
            c.bad('%s: raised %r', what, raised)
        want = 1 if not debug or politic == 'all' else 0
        if c.eq(len(out), want, what + ': records') and want:
            r = out[0]
            if text is not None:
                c.eq(r['message'], text, what + ': message')
            c.eq(r['success'], False, what + ': success')
            c.eq(r['level'], 7, what + ': level')
            c.eq(r['exception_type'], 'AssertionError', what + ': exception type')
            if text is not None:
                c.eq(r['exception_message'], text, what + ': exception message')
    c.op()
    c.state(debug, politic, ename, mname)


def matrix(c, spec):
    debug, politic, silent, pool = spec
    out = listen()
    config.set(debug_mode=debug, smart_assert_politic=politic, silent_internal_exceptions=silent, level=0, default_level=3, default_error_level=7)
    if pool:
        config.set(pool_size=pool)
    for ename in EXPRESSIONS:
        for mname in MESSAGES:
            one(c, out, debug, politic, ename, mname, 'debug %s, policy %s, %s, message %s' % (debug, politic, ename, mname), pool)


def history(c, ops):
    """Every sequence of settings changes and asserts."""
    out = listen()
    debug, politic = True, 'if_debug'
    config.set(debug_mode=True, smart_assert_politic='if_debug', level=0, default_level=3, default_error_level=7)
    for n, op in enumerate(ops):
        if op in ('d+', 'd-'):
            debug = op == 'd+'
            config.set(debug_mode=debug)
        elif op in ('all', 'if_debug'):
            politic = op
            config.set(smart_assert_politic=op)
        else:
            one(c, out, debug, politic, op, 'text', 'step %d of %r' % (n, ops))
    one(c, out, debug, politic, 'False', 'text', 'the end of %r' % (ops,))
    one(c, out, debug, politic, 'True', 'text', 'the end of %r' % (ops,))


def history_cases(thorough):
    for n in range(1, 6 if thorough else 5):
        yield from itertools.product(('d+', 'd-', 'all', 'if_debug', 'False'), repeat=n)


def surroundings(c, spec):
    """The level, the ban, a failing handler and too many arguments do not change whether something is raised."""
    debug, politic, kind = spec
    out = listen()
    config.set(debug_mode=debug, smart_assert_politic=politic, level=0, default_level=3, default_error_level=7, silent_internal_exceptions=True)
    want = 1 if not debug or politic == 'all' else 0

    def call():
        ass(False, 'text')
    if kind == 'level':
        config.set(level=8)
        want = 0
    elif kind == 'unlog':
        call = unlog(call)
        want = 0
    elif kind == 'handler':
        def bad(item):
            raise RuntimeError
        config.add_handlers(bad)
    elif kind == 'field':
        config.add_fields(f=field(lambda item: 1 / 0))
    elif kind == 'surplus':
        def call():
            ass(False, 'text', 'more', 'and more')
    elif kind == 'except':
        inner = call

        def call():
            try:
                1 / 0
            except ZeroDivisionError:
                inner()
    elif kind == 'decorated':
        call = log(call)
        want += 1
    raised = None
    try:
        call()
    except BaseException as e:    # noqa
        raised = e
    c.eq(type(raised), AssertionError if debug else type(None), '%s: raised' % kind)
    if kind == 'decorated' and debug:
        c.eq(len(out) >= 1, True, 'records')
    else:
        c.eq(len(out), want, '%s: records' % kind)
    c.op()


class Race(Program):
    trace = (P + 'loggers/handle', P + 'core/stores/settings')
    exclude = (P + 'tests', )

    def __init__(self, name, before, change):
        self.name, self.before, self.change = name, before, change

    def run(self, k):
        with calm():
            out = listen()
            config.set(level=0, default_level=3, default_error_level=7, **self.before)
        t = thread(lambda: config.set(**self.change))
        raised = 0
        try:
            ass(0, 'm')
        except AssertionError:
            raised = 1
        t.join()
        got = (raised, len(out))
        allowed = set()
        for s in (self.before, {**self.before, **self.change}):
            d, p = s['debug_mode'], s['smart_assert_politic']
            allowed.add((int(d), 1 if not d or p == 'all' else 0))
        k.check(got in allowed, '(raised, records) = %r is right neither before nor after the change: %r', got, sorted(allowed))
        k.observe(got)


def scenarios():
    yield Race('debug-on', dict(debug_mode=False, smart_assert_politic='if_debug'), dict(debug_mode=True)), 2, 3
    yield Race('debug-off', dict(debug_mode=True, smart_assert_politic='if_debug'), dict(debug_mode=False)), 2, 3
    yield Race('policy-all', dict(debug_mode=True, smart_assert_politic='if_debug'), dict(smart_assert_politic='all')), 2, 3
    yield Race('policy-debug', dict(debug_mode=True, smart_assert_politic='all'), dict(smart_assert_politic='if_debug')), 2, 3
    yield Race('debug-on-all', dict(debug_mode=False, smart_assert_politic='all'), dict(debug_mode=True)), 2, 3


def run(ctx):
    both = (False, True)
    ctx.cases('matrix', list(itertools.product(both, ('all', 'if_debug'), both, (0, 1))), matrix)
    ctx.cases('histories', history_cases(ctx.thorough), history, managed=False, batch=1)
    ctx.cases('surroundings', list(itertools.product(both, ('all', 'if_debug'), ('plain', 'level', 'unlog', 'handler', 'field', 'surplus', 'except', 'decorated'))), surroundings)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
