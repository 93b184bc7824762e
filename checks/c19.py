"""C19: a handler writes a record or passes it to its fallback, exactly one of the two."""
import functools
import itertools
import os
import threading

from polog import SMTP_sender, config, file_writer, handle_log, log
from polog.handlers.abstract.base import BaseHandler

from mc.sched import calm
from checks import files
from checks.common import P, Program, flush, fresh_dir, thread

FILTERS = {
    'none': None,
    'true': (lambda item: True),
    'false': (lambda item: False),
    'None': (lambda item: None),
    'zero': (lambda item: 0),
    'one': (lambda item: 1),
    'empty': (lambda item: ''),
    'text': (lambda item: 'False'),
    'list': (lambda item: []),
    'object': (lambda item: object()),
    'nobool': (lambda item: NoBool()),
    'raises': (lambda item: 1 / 0),
    'key': (lambda item: item['no such field']),
    'field': (lambda item: item['success']),
}
SUCCESSES = ('True', 'False', 'missing')
FAILS = ('', 'content', 'do', 'both', 'stop')


class NoBool:
    def __bool__(self):
        raise TypeError('no bool')

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


def decides(name, success):
    """What the filter says: True, False, 'abstains' or 'fails'."""
    if name in ('raises', 'key'):
        return 'fails'
    if name == 'true':
        return True
    if name == 'false':
        return False
    if name == 'field':
        return {'True': True, 'False': False, 'missing': 'fails'}[success]
    return 'abstains'


class Simple(BaseHandler):
    def __init__(self, fail='', **more):
        super().__init__(**more)
        self.fail, self.out = fail, []

    def get_content(self, log):
        if self.fail in ('content', 'both'):
            raise ValueError('content')
        return log

    def do(self, content):
        if self.fail in ('do', 'both'):
            raise OSError('do')
        if self.fail == 'stop':
            raise StopIteration
        self.out.append(content['message'])


class FailingFile(files.Slow):
    def __init__(self, fail):
        super().__init__()
        self.fail = fail

    def write(self, text):
        if self.fail in ('do', 'both'):
            raise OSError('disk full')
        if self.fail == 'stop':
            raise StopIteration
        self.text += text


def build(kind, fail, written, alt, **options):
    """A handler of the kind; what it has written is appended to the list."""
    if kind == 'simple':
        h = Simple(fail, alt=alt, **options)
        h.out = written
        return h
    if kind == 'file':
        def fmt(item):
            if fail in ('content', 'both'):
                raise ValueError('content')
            return item['message'] + '\n'
        f = FailingFile(fail)

        class Sink(FailingFile):
            def write(self, text):
                FailingFile.write(self, text)
                written.append(text[:-1])
        return file_writer(Sink(fail), formatter=fmt, alt=alt, **options)

    class Wrapper:
        def __init__(self, *a):
            pass

        def send(self, message):
            if fail in ('do', 'both'):
                raise OSError('no connection')
            if fail == 'stop':
                raise StopIteration
            written.append(message['Subject'])

    def subject(item):
        if fail in ('content', 'both'):
            raise ValueError('content')
        return item['message']
    return SMTP_sender('a@b', 'p', 's', 'c@d', subject_assembler=subject, text_assembler=lambda item: 'text', smtp_wrapper=Wrapper, alt=alt, **options)


def emit(message, success):
    if success == 'missing':
        log(message)
    else:
        log(message, success=success == 'True')


def matrix(c, spec):
    kind, pool, alt_kind = spec
    n = 0
    if pool:
        config.set(pool_size=pool)
    for fname, only_errors, success, fail in itertools.product(FILTERS, (False, True), SUCCESSES, FAILS):
        n += 1
        written, called, chain, other = [], [], [], []

        def record(item):
            called.append(item['message'])

        def broken(item):
            called.append(item['message'])
            raise RuntimeError('alt')
        alt = {'none': None, 'function': record, 'broken': broken}.get(alt_kind)
        if alt_kind == 'chain':
            # the fallback is a handler with a filter that rejects, and a fallback of its own
            inner = Simple(alt=lambda item: chain.append(item['message']), filter=lambda item: (called.append(item['message']), False)[1])
            alt = inner
        h = build(kind, fail, written, alt, filter=FILTERS[fname], only_errors=only_errors)

        def neighbour(item):
            other.append(item['message'])
        config.add_handlers(h, neighbour)
        emit('m%d' % n, success)
        if pool:
            config.set(pool_size=pool + 1)
            config.set(pool_size=pool)
        what = '%s, filter %s, only_errors %s, success %s, failure %r, alt %s' % (kind, fname, only_errors, success, fail, alt_kind)
        rejected = only_errors and success != 'False'
        if not rejected:
            d = decides(fname, success)
            rejected = d is False or d == 'fails'
        ok = not rejected and not fail
        c.eq(written, ['m%d' % n] if ok else [], what + ': written')
        c.eq(called, [] if ok or alt_kind == 'none' else ['m%d' % n], what + ': fallback calls')
        c.eq(chain, [] if ok or alt_kind != 'chain' else ['m%d' % n], what + ': second fallback calls')
        c.eq(other, ['m%d' % n], what + ': another handler')
        c.op()
        c.state(kind, fname, only_errors, success, fail, alt_kind)
        config.delete_handlers(h, neighbour)


def matrix_cases():
    for kind in ('simple', 'file', 'mail'):
        for pool in (0, 1):
            for alt_kind in ('none', 'function', 'broken', 'chain'):
                yield (kind, pool, alt_kind)


def direct(c, spec):
    """The handler called directly with the record: the fallback gets that very record; sequences do not influence each other."""
    kind, seq = spec
    written, called, items, given = [], [], [], []
    config.add_handlers(lambda item: items.append(item))
    mode = ['']

    def filt(item):
        return {'r': False, 'e': None}.get(mode[0], True) if mode[0] != 'x' else 1 / 0

    class H(Simple):
        def do(self, content):
            if mode[0] == 'd':
                raise OSError('x')
            written.append(content)

    def alt(item):
        called.append(item)
        return 'from alt'
    h = H(filter=filt, alt=alt, only_errors=False)
    for n, op in enumerate(seq):
        log('m%d' % n)
        mode[0] = op
        item = items[-1]
        before = (len(written), len(called))
        try:
            h(item)
        except BaseException as e:    # noqa
            c.bad('the handler raised %r', e)
        delta = (len(written) - before[0], len(called) - before[1])
        c.eq(delta, (1, 0) if op in 'we' else (0, 1), 'written and passed to the fallback at step %d of %r' % (n, seq))
        last = written[-1] if op in 'we' else called[-1]
        if last is not item:
            c.bad('another object instead of the record was given')
        c.op()
    c.state(seq)


def direct_cases(thorough):
    for seq in itertools.product('wedrx', repeat=4 if thorough else 3):
        yield ('simple', seq)


class Race(Program):
    """Records with different fates pass through one handler at once."""
    trace = (P + 'handlers', )
    exclude = (P + 'tests', )

    def __init__(self, name, kind, fates, pool=0, **more):
        self.name, self.kind, self.fates, self.pool = name, kind, fates, pool
        for k, v in more.items():
            setattr(self, k, v)

    def run(self, k):
        written, called = [], []
        with calm():
            def filt(item):
                m = item['message']
                if m[0] == 'x':
                    raise ValueError
                return m[0] != 'r'

            def fmt(item):
                if item['message'][0] == 'c':
                    raise ValueError
                return item['message'] + '\n'

            class Sink(files.Slow):
                def write(self, text):
                    if text[0] == 'd':
                        raise OSError
                    written.append(text[:-1])

            class Wrapper:
                def __init__(self, *a):
                    pass

                def send(self, message):
                    if message['Subject'][0] == 'd':
                        raise OSError
                    written.append(message['Subject'])

            def alt(item):
                called.append(item['message'])
            if self.kind == 'file':
                h = file_writer(Sink(), filter=filt, formatter=fmt, alt=alt)
            else:
                h = SMTP_sender('a', 'b', 'c', 'd', filter=filt, subject_assembler=lambda item: fmt(item)[:-1], alt=alt, smtp_wrapper=Wrapper)
            config.add_handlers(h)
            if self.pool:
                config.set(pool_size=self.pool)
            log('w')
        ts = [thread(log, f) for f in self.fates[1:]]
        log(self.fates[0])
        for t in ts:
            t.join()
        if self.pool:
            flush()
        k.eq(sorted(written), sorted(f for f in self.fates + ('w',) if f[0] == 'w'), 'written')
        k.eq(sorted(called), sorted(f for f in self.fates if f[0] != 'w'), 'passed to the fallback')


def scenarios():
    for kind in ('file', 'mail'):
        for a, b in itertools.combinations(('w1', 'r1', 'd1', 'x1', 'c1'), 2):
            yield Race('%s-%s%s' % (kind, a, b), kind, (a, b)), (2 if a == 'w1' and kind == 'file' else 1), 2
            yield Race('%s-%s%s' % (kind, b, a), kind, (b, a)), 1, 2
        yield Race(kind + '-three', kind, ('w1', 'r1', 'd1')), 1, 2
        yield Race(kind + '-pool', kind, ('w1', 'd1', 'r1'), pool=2), 1, 2


# -- construction -------------------------------------------------------------------------------------------------------
class CallableObject:
    def __call__(self, item):
        return True


class TwoArgs:
    def __call__(self, a, b):
        return True


def functions():
    def one(item):
        return True

    def two(a, b):
        return True

    def zero():
        return True

    def stars(*args):
        return True

    def kwargs(item, **kw):
        return True

    def default(item, x=1):
        return True

    async def coroutine(item):
        return True
    return {
        'one': (one, True), 'lambda': (lambda x: True, True), 'object': (CallableObject(), True), 'bound': (CallableObject().__call__, True),
        'partial': (functools.partial(two, 1), True), 'none': (None, True),
        'two': (two, False), 'zero': (zero, False), 'stars': (stars, False), 'kwargs': (kwargs, False), 'default': (default, False), 'object2': (TwoArgs(), False),
        'text': ('text', False), 'number': (5, False), 'true': (True, False), 'list': ([one], False), 'dict': ({}, False),
    }


def values():
    f = functions()
    yes = {k: v for k, v in f.items()}
    boolean = {'True': (True, True), 'False': (False, True), '0': (0, False), '1': (1, False), 'None': (None, False), 'text': ('True', False), 'list': ([], False)}
    string = {'text': ('x', True), 'empty': ('', True), 'None': (None, False), 'number': (5, False), 'bytes': (b'x', False), 'list': (['x'], False)}
    return {
        'only_errors': boolean, 'filter': yes, 'alt': yes,
        'forced_flush': boolean, 'separator': string, 'formatter': yes,
        'is_html': boolean, 'text_assembler': yes, 'subject_assembler': yes,
        'port': {'465': (465, True), 'text': ('465', False), 'None': (None, False), 'float': (4.5, False)},
        'email_from': string, 'password': string, 'smtp_server': string, 'email_to': string,
    }


KINDS = {
    'simple': ('only_errors', 'filter', 'alt'),
    'file': ('only_errors', 'filter', 'alt', 'forced_flush', 'separator', 'formatter'),
    'mail': ('only_errors', 'filter', 'alt', 'is_html', 'text_assembler', 'subject_assembler', 'port', 'email_from', 'password', 'smtp_server', 'email_to'),
}


def construct(c, spec):
    kind, args = spec
    table = values()
    options = {name: table[name][v][0] for name, v in args}
    ok = all(table[name][v][1] for name, v in args)

    def make():
        if kind == 'simple':
            return Simple(**options)
        if kind == 'file':
            return file_writer(files.Slow(), **options)
        base = dict(email_from='a', password='b', smtp_server='c', email_to='d')
        base.update(options)
        return SMTP_sender(**base)
    try:
        h = make()
        got = 'accepted'
    except ValueError:
        got = 'rejected'
    except BaseException as e:    # noqa
        got = 'failed with %r' % e
    c.eq(got, 'accepted' if ok else 'rejected', '%s(%s)' % (kind, ', '.join('%s=%s' % a for a in args)))
    if got == 'accepted' and ok and kind != 'mail':
        config.add_handlers(h)
        log('works')
        if kind == 'simple' and not options.get('only_errors') and h.out != ['works']:
            c.bad('the handler %s(%r) does not work', kind, args)
        config.delete_handlers(h)
    c.op()


def construct_cases():
    table = values()
    for kind, names in KINDS.items():
        for name in names:
            for v in table[name]:
                yield (kind, ((name, v),))
        for n1, n2 in itertools.combinations(names, 2):
            for v1, v2 in itertools.product(table[n1], table[n2]):
                yield (kind, ((n1, v1), (n2, v2)))


def targets(c, spec):
    """What may be given to the file handler as its file."""
    name, ok = spec
    d = fresh_dir()

    class Half:
        def write(self, x):
            pass

    class Attr:
        read = write = close = 5
    args = {
        'nothing': (), 'path': (os.path.join(d, 'x'),), 'object': (files.Slow(),), 'file': (open(os.path.join(d, 'y'), 'a'),),
        'two': (os.path.join(d, 'x'), os.path.join(d, 'y')), 'number': (5,), 'none': (None,), 'bytes': (b'x',), 'half': (Half(),), 'attr': (Attr(),), 'list': (['x'],),
    }[name]
    try:
        file_writer(*args)
        got = True
    except ValueError:
        got = False
    c.eq(got, ok, 'file_writer with %s as its file is accepted' % name)
    c.op()


def run(ctx):
    ctx.cases('matrix', matrix_cases(), matrix)
    ctx.cases('direct', direct_cases(ctx.thorough), direct, managed=False, batch=10)
    ctx.cases('construction', construct_cases(), construct, managed=False, batch=50)
    ctx.cases('targets', [(n, n in ('nothing', 'path', 'object', 'file')) for n in
                          ('nothing', 'path', 'object', 'file', 'two', 'number', 'none', 'bytes', 'half', 'attr', 'list')], targets, managed=False)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
