"""C20: standard-library logging is mirrored faithfully and controllably."""
import datetime
import itertools
import logging
import os
import sys
import threading

from polog import config, handle_log, log
from polog.core.stores.settings.actions import from_logging_filter_to_polog

from mc.sched import calm
from checks.common import P, Program, flush, thread

FIELDS = ('message', 'level', 'success', 'module', 'line_number', 'function', 'path_to_code', 'exception_type', 'exception_message', 'traceback', 'from_logging', 'auto', 'time', 'thread', 'process')


class Sink(logging.Handler):
    """What the standard logger itself emits."""

    def __init__(self):
        super().__init__(level=0)
        self.out = []

    def emit(self, record):
        self.out.append(record)


class Text:
    def __str__(self):
        return 'text of an object'


class NoText:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class FakeText(str):
    pass


MESSAGES = {
    'plain': ('hello', (), 'hello'),
    'args': ('a %s b %d', ('x', 5), 'a x b 5'),
    'dict': ('%(k)s!', ({'k': 'v'},), 'v!'),
    'percent': ('100%', (), '100%'),
    'few': ('%s %s', ('x',), '%s %s'),
    'many': ('hello', ('x',), 'hello'),
    'type': ('%d', ('x',), '%d'),
    'object': (Text(), (), 'text of an object'),
    'number': (5, (), '5'),
    'exception': (ValueError('in message'), (), 'in message'),
    'empty': ('', (), None),
    'unicode': ('Привет \U0001f600\n\x00', (), 'Привет \U0001f600\n\x00'),
    'arg-notext': ('%s', (NoText(),), '%s'),
    'msg-notext': (NoText(), (), Ellipsis),
    'subclass': (FakeText('sub'), (), 'sub'),
    'list': (['a', 'b'], (), "['a', 'b']"),
}
LEVELS = (1, 10, 15, 20, 29, 30, 31, 40, 50, 77)


class Odd(Exception):
    def __str__(self):
        raise RuntimeError('unprintable')


EXCEPTIONS = {
    'no': None,
    'value': lambda: ValueError('bad value'),
    'empty': lambda: KeyError(),
    'odd': lambda: Odd('x'),
    'base': lambda: KeyboardInterrupt('stop'),
    'unicode': lambda: OSError('Ошибка'),
}


def setup(pool, logging_off=False, integration=True, level=0):
    out = []

    def h(item):
        out.append({f: item.get(f) for f in FIELDS})
    config.add_handlers(h)
    logging.root.setLevel(1)
    for x in list(logging.root.handlers):
        logging.root.removeHandler(x)
    sink = Sink()
    logging.root.addHandler(sink)
    config.set(level=level, logging_off=False)
    config.set(integration_with_logging=integration)
    if integration:
        config.set(logging_off=logging_off)
    if pool:
        config.set(pool_size=pool)
    return out, sink


def emit(level, message, args, exception, form):
    """Emit one record; returns the line number."""
    kw = {}
    if form == 'extra':
        kw['extra'] = {'some': 1}
    if exception:
        try:
            raise exception()
        except BaseException:    # noqa
            if form == 'exc':
                e = sys.exc_info()[1]
                line = sys._getframe().f_lineno + 1
                logging.root.log(level, message, *args, exc_info=e, **kw)
            elif form == 'method':
                line = sys._getframe().f_lineno + 1
                logging.exception(message, *args, **kw)
            else:
                line = sys._getframe().f_lineno + 1
                logging.log(level, message, *args, exc_info=True, **kw)
    elif form == 'noexc':
        line = sys._getframe().f_lineno + 1
        logging.log(level, message, *args, exc_info=True)
    elif form == 'tuple':
        line = sys._getframe().f_lineno + 1
        logging.log(level, message, *args, exc_info=(None, None, None))
    elif form == 'stack':
        line = sys._getframe().f_lineno + 1
        logging.log(level, message, *args, stack_info=True)
    else:
        line = sys._getframe().f_lineno + 1
        logging.log(level, message, *args, **kw)
    return line


def wait(pool, out):
    if pool:
        config.set(pool_size=pool + 1)
        config.set(pool_size=pool)
    r = list(out)
    del out[:]
    return r


def judge(c, what, got, level, text, exception, line, form):
    if not c.eq(len(got), 1, what + ': records'):
        return
    r = got[0]
    if form == 'method':
        level = 40
    if text is not Ellipsis:
        c.eq(r['message'], text, what + ': message')
    c.eq(r['level'], level, what + ': level')
    c.eq(r['success'], level < 30, what + ': success')
    c.eq(r['module'], 'c20', what + ': module')
    c.eq(r['function'], 'emit', what + ': function')
    c.eq(r['line_number'], line, what + ': line')
    c.eq(os.path.realpath(r['path_to_code']), os.path.realpath(__file__), what + ': path')
    c.eq(r['from_logging'], True, what + ': from_logging')
    c.eq(r['auto'], False, what + ': auto')
    if exception:
        e = exception()
        c.eq(r['exception_type'], type(e).__name__, what + ': exception type')
        if not isinstance(e, Odd):
            c.eq(r['exception_message'], str(e), what + ': exception message')
        if not r['traceback'] or 'raise exception()' not in r['traceback']:
            c.bad('%s: traceback %r', what, r['traceback'])
    else:
        c.eq((r['exception_type'], r['exception_message'], r['traceback']), (None, None, None), what + ': exception')


def mirror(c, spec):
    pool, off, msg = spec
    out, sink = setup(pool, off)
    logging.raiseExceptions = False
    text, args, want = MESSAGES[msg]
    for level in LEVELS:
        for ename, exception in EXCEPTIONS.items():
            for form in (('plain', 'exc', 'method', 'extra') if exception else ('plain', 'extra', 'noexc', 'tuple', 'stack')):
                what = 'message %s, level %d, exception %s, form %s' % (msg, level, ename, form)
                try:
                    line = emit(level, text, args, exception, form)
                except BaseException as e:    # noqa
                    c.bad('%s: the logging call raised %r', what, e)
                    continue
                got = wait(pool, out)
                judge(c, what, got, level, want, exception, line, form)
                c.eq(len(sink.out), 0 if off else 1, what + ': emitted by the standard logger')
                if sink.out and got:
                    std = sink.out[0]
                    c.eq(got[0]['time'].timestamp(), datetime.datetime.fromtimestamp(std.created).timestamp(), what + ': time')
                    for kind, name, ident in (('thread', std.threadName, std.thread), ('process', std.processName, std.process)):
                        if name not in str(got[0][kind]) or str(ident) not in str(got[0][kind]):
                            c.bad('%s: %s %r instead of %s (%s)', what, kind, got[0][kind], name, ident)
                del sink.out[:]
                c.op()
                c.state(msg, level, ename, form)


def mirror_cases():
    for pool in (0, 1):
        for off in (False, True):
            for msg in MESSAGES:
                yield (pool, off, msg)


def control(c, spec):
    """The two settings, the level and the ban decide, at every moment, whether a record is mirrored and emitted."""
    ops = spec
    out, sink = setup(0)
    integration, off, level, own = True, False, 0, False
    child = logging.getLogger('child')
    child.setLevel(1)
    for n, op in enumerate(ops):
        what = 'step %d of %r' % (n, ops)
        if op == 'i+':
            config.set(integration_with_logging=True)
            integration = True
        elif op == 'i-':
            try:
                config.set(integration_with_logging=False)
                if off:
                    c.bad('%s: a conflicting setting was accepted', what)
            except ValueError:
                if not off:
                    c.bad('%s: the integration cannot be switched off', what)
            if not off:
                integration = False
        elif op == 'o+':
            try:
                config.set(logging_off=True)
                if not integration:
                    c.bad('%s: a conflicting setting was accepted', what)
            except ValueError:
                if integration:
                    c.bad('%s: the standard logger cannot be switched off', what)
            if integration:
                off = True
        elif op == 'o-':
            config.set(logging_off=False)
            off = False
        elif op == 'lv':
            level = 25 - level
            config.set(level=level)
        for lv in (20, 30):
            logging.log(lv, 'm')
            want = 1 if integration and lv >= level else 0
            if not c.eq(len(out), want, '%s: mirrored at level %d' % (what, lv)):
                return
            if not c.eq(len(sink.out), 0 if off and integration else 1, '%s: emitted at level %d' % (what, lv)):
                return
            del out[:], sink.out[:]
            # a child logger does not pass through the root's filter
            child.log(lv, 'm')
            if not c.eq((len(out), len(sink.out)), (0, 1), '%s: record of a child logger' % what):
                return
            del out[:], sink.out[:]
            c.op(2)
        c.state(integration, off, level, n)


def control_cases(thorough):
    for n in range(1, 6 if thorough else 5):
        yield from itertools.product(('i+', 'i-', 'o+', 'o-', 'lv'), repeat=n)


def default(c, spec):
    """Without any configuration the standard records go to polog only."""
    out = []

    def h(item):
        out.append((item['message'], item['level']))
    config.add_handlers(h)
    sink = Sink()
    logging.root.addHandler(sink)
    logging.warning('w %s', 1)
    c.eq(out, [('w 1', 30)], 'mirrored by default')
    c.eq(len(sink.out), 0, 'emitted by default')
    c.op()


def child(c, spec):
    """The documented way to mirror another logger: its own filter."""
    off, both, level = spec
    out, sink = setup(0, off)
    lg = logging.getLogger('a.b')
    lg.setLevel(1)
    own = Sink()
    lg.addHandler(own)
    lg.addFilter(from_logging_filter_to_polog)
    lg.log(level, 'x %s', 1)
    c.eq([(r['message'], r['level'], r['success']) for r in out], [('x 1', level, level < 30)], 'mirrored records')
    c.eq(len(own.out), 0 if off else 1, 'emitted')
    c.eq(len(sink.out), 0 if off else 1, 'propagated')
    lg.removeFilter(from_logging_filter_to_polog)
    lg.log(level, 'y')
    c.eq(len(out), 1, 'after the filter is gone')
    c.op(2)


def handled(c, spec):
    """Records that another program or thread made and that are only passed on here (as the receiver of SocketHandler does)."""
    level, how, default, thread_name = spec
    out, sink = setup(0, False)
    config.set(default_level=default)
    made = {'name': 'remote', 'msg': 'a %s', 'args': ('b',), 'levelno': level, 'levelname': 'SOME', 'pathname': '/x/y.py', 'module': 'y', 'lineno': 7, 'funcName': 'fn', 'threadName': thread_name,
            'thread': 5, 'process': 6, 'processName': 'P', 'created': 86400.5}
    rec = logging.makeLogRecord(made) if how == 'made' else logging.root.makeRecord('root', level, '/x/y.py', 7, 'a %s', ('b',), None, 'fn')
    logging.root.handle(rec)
    c.op()
    if c.eq(len(out), 1, 'records'):
        r = out[0]
        got = r['message'], r['level'], r['success'], r['module'], r['line_number'], r['function'], r['path_to_code']
        c.eq(got, ('a b', level, level < 30, 'y', 7, 'fn', '/x/y.py'), 'the record')
        if how == 'made':
            c.eq(r['time'], datetime.datetime.fromtimestamp(86400.5), 'time')
            if str(thread_name) not in str(r['thread']) or '5' not in str(r['thread']) or 'P' not in str(r['process']) or '6' not in str(r['process']):
                c.bad('thread %r and process %r', r['thread'], r['process'])
    c.eq(sink.out, [rec], 'emitted')


class Crowd(Program):
    """Threads log through the standard module while the settings change."""
    exclude = (P + 'tests', )

    def __init__(self, name, change, pool=0, trace=(P + 'core/stores', P + 'loggers')):
        self.name, self.change, self.pool, self.trace = name, change, pool, trace

    def run(self, k):
        with calm():
            out, sink = setup(self.pool)
            logging.info('warm')

        def body():
            for x in self.change:
                config.set(**x)
        t = thread(body)
        for i in range(2):
            logging.error('e%d', i)
        t.join()
        logging.error('last')
        if self.pool:
            flush()
        got = [r['message'] for r in out]
        mine = [m for m in got if m in ('e0', 'e1')]
        k.eq(got[0], 'warm', 'first record')
        if any('integration_with_logging' in x for x in self.change):
            k.check(all(mine.count(m) <= 1 for m in mine), 'a record was mirrored twice: %r', mine)
            k.eq(got.count('last'), 1 if self.change[-1].get('integration_with_logging', True) else 0, 'mirrored after the change')
        else:
            k.eq(sorted(mine), ['e0', 'e1'], 'mirrored records')
            k.eq(got.count('last'), 1, 'mirrored after the change')
        for r in out:
            if (r['level'], r['success']) != ((20, True) if r['message'] == 'warm' else (40, False)):
                k.bad('the record %r is wrong', r)
        texts = [r.getMessage() for r in sink.out]
        k.check(all(texts.count(x) <= 1 for x in texts), 'emitted twice: %r', texts)
        k.observe(tuple(got), tuple(texts))


class Threads(Program):
    exclude = (P + 'tests', )

    def __init__(self, name, pool=0, trace=(P + 'core/stores/settings/actions', P + 'loggers/handle')):
        self.name, self.pool, self.trace = name, pool, trace

    def run(self, k):
        with calm():
            out, sink = setup(self.pool)
            logging.info('warm')

        def body(i):
            try:
                raise ValueError('v%d' % i)
            except ValueError:
                logging.log(20 + 20 * i, 'r%d', i, exc_info=bool(i))
        t = thread(body, 1)
        body(0)
        t.join()
        if self.pool:
            flush()
        got = sorted((r['message'], r['level'], r['success'], r['exception_message']) for r in out if r['message'] != 'warm')
        k.eq(got, [('r0', 20, True, None), ('r1', 40, False, 'v1')], 'records')
        k.eq(sorted(r.getMessage() for r in sink.out), ['r0', 'r1', 'warm'], 'emitted')


def scenarios():
    yield Threads('threads'), 1, 2
    yield Threads('threads-narrow', trace=(P + 'core/stores/settings/actions', )), 2, 3
    yield Threads('threads-pool', pool=2), 1, 2
    yield Crowd('off', [dict(logging_off=True)]), 1, 2
    yield Crowd('on-off', [dict(logging_off=True), dict(logging_off=False)]), 1, 2
    yield Crowd('integration', [dict(integration_with_logging=False)]), 1, 2
    yield Crowd('integration-twice', [dict(integration_with_logging=False), dict(integration_with_logging=True)]), 1, 2
    yield Crowd('level', [dict(level=5)]), 1, 2
    yield Crowd('pool', [dict(pool_size=2)], pool=1), 1, 2


def nested(c, spec):
    """Standard logging from inside a polog handler or extractor, and a standard handler that logs with polog."""
    pool, off, where = spec
    out, sink = setup(pool, off)
    depth = []

    def inner(item):
        if item.get('message') == 'outer':
            logging.warning('inner')
    config.add_handlers(inner)
    if where == 'handler':
        log('outer')
    else:
        logging.error('outer')
    if pool:
        flush()
    c.eq(sorted(r['message'] for r in out), ['inner', 'outer'], 'records')
    c.eq(len(sink.out), (0 if off else 1) + (0 if off or where == 'handler' else 1), 'emitted')
    c.op(2)


def run(ctx):
    ctx.cases('mirror', mirror_cases(), mirror)
    ctx.cases('control', control_cases(ctx.thorough), control)
    ctx.cases('child', list(itertools.product((False, True), (False,), LEVELS)), child)
    ctx.cases('handled', itertools.product((0, 1, 10, 29, 30, 31, 50, 100), ('made', 'make'), (0, 1, 7), ('T', 'MainThread', '')), handled, managed=False)
    ctx.cases('default', [0], default)
    ctx.cases('nested', list(itertools.product((0, 1), (False, True), ('handler', 'logging'))), nested)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
