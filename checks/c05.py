"""C05: a failing handler or extractor never affects the program, other handlers, other fields or later records."""
import itertools
import threading
import time

from polog import config, field, log

from mc.sched import calm
from checks.common import ALL, ENGINE, TESTS, P, Recorder, Scenario, flush, handler, thread


class Custom(Exception):
    def __str__(self):
        raise RuntimeError('even printing fails')
    __repr__ = __str__


class Base(BaseException):
    pass


FAULTS = {
    'ok': None,
    'exc': lambda: ValueError('x'),
    'custom': lambda: Custom(),
    'exit': lambda: SystemExit(1),
    'kbd': lambda: KeyboardInterrupt(),
    'stop': lambda: StopIteration(),
    'gen': lambda: GeneratorExit(),
    'base': lambda: Base(),
    'assert': lambda: AssertionError(),
    'rec': 'recursion',
}


def fail(kind):
    f = FAULTS[kind]
    if f is None:
        return
    if f == 'recursion':
        def deeper():
            return deeper() + 1
        return deeper()
    raise f()


def handler_case(c, case):
    pool, kinds, style, setting = case
    if setting:
        config.set(**dict(setting))
    if pool:
        config.set(time_quant=0.1, max_delay_before_exit=100)
        config.set(pool_size=pool)
    got = [[] for _ in kinds]
    for i, k in enumerate(kinds):
        def make(i=i, k=k):
            def h(log_item):
                got[i].append(log_item['message'])
                fail(k)
            return h
        config.add_handlers(**{'h%d' % i: make()})
    escaped = []
    sentinel = object()
    for m in ('one', 'two', 'three'):
        c.op()
        try:
            if style == 'log':
                log(m)
            elif style == 'fn':
                if log(message=m)(lambda: sentinel)() is not sentinel:
                    c.bad('the result of the decorated function changed')
            elif style == 'block':
                with log(m):
                    pass
            elif style == 'err':
                e = ValueError('own')

                def boom():
                    raise e
                try:
                    log(message=m)(boom)()
                except ValueError as x:
                    if x is not e:
                        c.bad('another exception reached the caller')
        except BaseException as x:     # noqa
            escaped.append((m, type(x).__name__))
    flush()
    c.state(kinds, pool)
    c.eq(escaped, [], 'exceptions of handlers that reached the program')
    for i, k in enumerate(kinds):
        items = got[i] if pool < 2 else sorted(got[i], key=['one', 'two', 'three'].index)
        c.eq(items, ['one', 'two', 'three'], 'records received by handler %d (%s) of %s' % (i, k, kinds))


def handler_cases(thorough):
    some = ('ok', 'exc', 'exit')
    for pool in (0, 1, 2):
        for style in ('log', 'fn', 'block', 'err'):
            for kinds in itertools.product(some, repeat=3):
                yield (pool, kinds, style, ())
            for k in FAULTS:
                for pos in range(3):
                    kinds = ['ok', 'ok', 'ok']
                    kinds[pos] = k
                    yield (pool, tuple(kinds), style, ())
                    yield (pool, tuple(kinds), style, (('silent_internal_exceptions', True),))
            if thorough:
                for kinds in itertools.product(FAULTS, repeat=3):
                    yield (pool, kinds, style, ())


def extractor_case(c, case):
    """Extractors (and their converters) fail in every combination; every other field and handler is unaffected."""
    pool, specs, style, where = case
    config.set(time_quant=0.1, max_delay_before_exit=100)
    if pool:
        config.set(pool_size=pool)
    got = []

    def h(log_item):
        got.append({k: log_item.get(k) for k in ['message'] + ['f%d' % i for i in range(len(specs))] if k in log_item})
    config.add_handlers(h)
    calls = []
    fields = {}
    for i, (kind, conv) in enumerate(specs):
        def make(i=i, kind=kind, conv=conv):
            def extract(item):
                calls.append(i)
                fail(kind)
                return 'v%d' % i

            def convert(v):
                fail(conv)
                return v + '!'
            return extract, convert
        extract, convert = make()
        fields['f%d' % i] = field(extract, converter=convert) if conv != 'none' else field(extract)
    if where == 'place':
        config.add_fields(**fields)
    elif where == 'engine':
        config.add_engine_fields(**fields)
    deco = dict(extra_fields=fields) if where == 'own-place' else dict(extra_engine_fields=fields) if where == 'own-engine' else {}
    for m in ('one', 'two'):
        c.op()
        try:
            if style == 'log':
                log(m)
            elif style == 'fn':
                log(message=m, **deco)(lambda: None)()
            elif style == 'block':
                with log(m):
                    pass
        except BaseException as x:     # noqa
            c.bad('%s of an extractor reached the program', type(x).__name__)
    flush()
    want = {}
    for i, (kind, conv) in enumerate(specs):
        if kind == 'ok' and conv == 'ok':
            want['f%d' % i] = 'v%d!' % i
        elif kind == 'ok' and conv == 'none':
            want['f%d' % i] = 'v%d' % i
    c.state(specs, where)
    c.eq(sorted(got, key=lambda d: d['message']), [dict(want, message='one'), dict(want, message='two')],
         'records with extractors %s in %s' % (specs, where))


def extractor_cases(thorough):
    kinds = [('ok', 'none'), ('ok', 'ok'), ('exc', 'none'), ('ok', 'exc'), ('exit', 'none'), ('custom', 'none')]
    for pool in (0, 1):
        for where, styles in (('place', ('log', 'fn', 'block')), ('engine', ('log', 'fn', 'block')), ('own-place', ('fn',)), ('own-engine', ('fn',))):
            for style in styles:
                for specs in itertools.product(kinds, repeat=2 if not thorough else 3):
                    yield (pool, specs, style, where)


class Registry(Scenario):
    """Handlers are added and removed while records are handled: every constant handler still gets every record."""
    exclude = TESTS

    def __init__(self, name, pool, change, faulty=False, trace=None, writers=0):
        self.name, self.pool, self.change, self.faulty, self.writers = name, pool, change, faulty, writers
        self.trace = trace or (P + 'core/log_item.py', P + 'data_structures', P + 'config.py', P + 'core/utils/exception_escaping.py')

    def prepare(self):
        self.a, self.z = Recorder(), Recorder()
        self.other = Recorder()

        def a(item):
            self.a(item)
            if self.faulty:
                raise ValueError

        def z(item):
            self.z(item)

        def m(item):
            self.other(item)
        config.add_handlers(a=a)
        config.add_handlers(m=m)
        config.add_handlers(**{'z': z})
        config.set(time_quant=0.1, max_delay_before_exit=300)
        if self.pool:
            config.set(pool_size=self.pool)
        config.add_engine_fields(e=field(lambda item: 'e'))

    def body(self):
        if self.change == 'add':
            config.add_handlers({'n': handler(lambda i: None)})
        elif self.change == 'add-deep':
            config.add_handlers({'m.n.k': handler(lambda i: None)})
        elif self.change == 'del':
            config.delete_handlers('m')
        elif self.change == 'replace':
            config.delete_handlers('m')
            config.add_handlers(m=handler(lambda i: None))
        elif self.change == 'anon':
            config.add_handlers(handler(lambda i: None))
        elif self.change == 'field':
            config.add_engine_fields(g=field(lambda item: 'g'))
            config.delete_engine_fields('e')
        elif self.change == 'place-field':
            config.add_fields(p=field(lambda item: 'p'))
            config.delete_fields('p')
        elif self.change == 'own':
            log(handlers=('m.x',))(lambda: None)

    def main(self):
        with calm():
            log('r0')
        ts = [thread(self.body)] + [thread(lambda w=w: log('t%d' % w)) for w in range(self.writers)]
        log('r1')
        for t in ts:
            t.join()
        with calm():
            flush()
        return dict(a=sorted(self.a.items), z=sorted(self.z.items), m=len(self.other.items))

    def check(self, obs, s):
        want = ['r0', 'r1'] + ['t%d' % w for w in range(self.writers)]
        return ['handler %r, registered all the time, received %r instead of %r' % (k, obs[k], want)
                for k in ('a', 'z') if obs[k] != want]


def scenarios():
    for change in ('add', 'add-deep', 'del', 'replace', 'anon', 'field', 'place-field', 'own'):
        for pool in (0, 1):
            yield Registry('%s-%d' % (change, pool), pool, change, faulty=True), 1, 3
        yield Registry(change + '-2', 2, change, faulty=True, writers=1), 1, 2
    yield Registry('del-deeper', 0, 'replace'), 2, 3
    yield Registry('add-deeper', 0, 'add'), 2, 3
    yield Registry('fields-deeper', 0, 'field'), 2, 3
    yield Registry('wide-del', 1, 'del', trace=ALL, faulty=True), 1, 2
    yield Registry('wide-add', 2, 'add', trace=ALL), 1, 2
    yield Registry('wide-field', 0, 'field', trace=ALL), 1, 2


def run(ctx):
    ctx.cases('handlers', handler_cases(ctx.thorough), handler_case)
    ctx.cases('extractors', extractor_cases(ctx.thorough), extractor_case)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
