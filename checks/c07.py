"""C07: exactly the records at or above the current level are written."""
import itertools
import logging

from polog import config, field, handle_log, log
from polog import message as edit

from checks.common import P, Program, Recorder, flush, handler, thread
from mc.sched import calm

OPS = {
    'level=0': lambda m: m.set(level=0), 'level=1': lambda m: m.set(level=1), 'level=2': lambda m: m.set(level=2),
    'level=5': lambda m: m.set(level=5), 'level=a': lambda m: m.set(level='aaa'), 'level=b': lambda m: m.set(level='bbb'),
    'def=0': lambda m: m.set(default_level=0), 'def=7': lambda m: m.set(default_level=7), 'def=b': lambda m: m.set(default_level='bbb'),
    'err=0': lambda m: m.set(default_error_level=0), 'err=9': lambda m: m.set(default_error_level=9), 'err=a': lambda m: m.set(default_error_level='aaa'),
    'a:=1': lambda m: m.levels(aaa=1), 'a:=6': lambda m: m.levels(aaa=6), 'b:=4': lambda m: m.levels(bbb=4), 'b:=0': lambda m: m.levels(bbb=0),
    'both': lambda m: m.set(level=3, default_level=3), 'new': lambda m: m.levels(ccc=3),
}


class Model:
    def __init__(self):
        self.names = {'aaa': 3, 'bbb': 8}
        self.s = {'level': 0, 'default_level': 1, 'default_error_level': 2}

    def num(self, x):
        """None if there is no such level."""
        if isinstance(x, str):
            return self.names.get(x)
        return x

    def set(self, **k):
        config.set(**k)
        for n, v in k.items():
            self.s[n] = self.num(v)

    def levels(self, **k):
        config.levels(**k)
        self.names.update(k)

    def manual(self, level, failed):
        n = self.num(level) if level is not None else None
        if n is None:
            n = self.s['default_error_level' if failed else 'default_level']
        return n if n >= self.s['level'] else None

    def auto(self, level, errors_level, failed):
        n = None
        if not failed:
            n = self.num(level) if level is not None else None
            if n is None:
                n = self.s['default_level']
        else:
            if errors_level is not None:
                n = self.num(errors_level)
            if n is None:
                n = max([self.s['default_level'], self.s['default_error_level']] + ([self.num(level)] if level is not None and self.num(level) is not None else []))
        return n if n >= self.s['level'] else None


LEVELS = (None, 0, 1, 3, 8, 20, 'aaa', 'bbb')


class World:
    """Every way to write a record, made before the settings change."""

    def __init__(self):
        self.out = []
        out = self.out
        config.add_handlers(handler(lambda i: out.append(i['level'])))
        config.levels(aaa=3, bbb=8)
        self.decorated = []
        for level in LEVELS + ('ccc',):
            for err in (None, 0, 6, 'bbb', 'ccc'):
                def ok():
                    return 1

                def bad():
                    raise ValueError('x')
                kw = {}
                if level is not None:
                    kw['level'] = level
                if err is not None:
                    kw['errors_level'] = err
                self.decorated.append((level, err, log(**kw)(ok), log(**kw)(bad)))

                class K:
                    def ok(self):
                        return 1

                    def bad(self):
                        raise ValueError('x')
                log(**kw)(K)
                k = K()
                self.decorated.append((level, err, k.ok, k.bad))

                async def aok():
                    return 1

                async def abad():
                    raise ValueError('x')
                if err in (None, 'bbb'):
                    self.decorated.append((level, err, driven(log(**kw)(aok)), driven(log(**kw)(abad))))
        for name in ('aaa', 'bbb'):
            self.decorated.append((name, None, getattr(log, name)(ok), getattr(log, name)(bad)))
            self.decorated.append((name, 5, getattr(log, name)(errors_level=5)(ok), getattr(log, name)(errors_level=5)(bad)))
            self.decorated.append((4, None, getattr(log, name)(level=4)(ok), getattr(log, name)(level=4)(bad)))


def driven(f):
    def go():
        try:
            f().send(None)
        except StopIteration:
            pass
    return go


def probe(c, w, m, manual=True):
    def expect(what, want):
        c.op()
        got = w.out[:]
        w.out.clear()
        if got != ([] if want is None else [want]):
            c.bad('%s with %s and names %s: written with levels %s, expected %s', what, m.s, m.names, got, want)
    for level in LEVELS:
        kw = {} if level is None else {'level': level}
        for fname, f in (('log', log), ('handle_log', handle_log)):
            f('m', **kw)
            expect('%s(level=%s)' % (fname, level), m.manual(level, False))
            f('m', success=False, **kw)
            expect('%s(level=%s, success=False)' % (fname, level), m.manual(level, True))
            f('m', exception=ValueError('x'), **kw)
            expect('%s(level=%s, exception)' % (fname, level), m.manual(level, True))
            f('m', e='Name', success=True, **kw)
            expect('%s(level=%s, e=name)' % (fname, level), m.manual(level, True))
        with log('m', **kw):
            pass
        expect('block(level=%s)' % (level,), m.manual(level, False))
        with log('m', **kw).suppress():
            raise ValueError
        expect('failing block(level=%s)' % (level,), m.manual(level, True))
        with log('m') as inner:
            inner(**kw)
        expect('block with the level set inside (%s)' % (level,), m.manual(level, False))
    for name in m.names:
        for fname, f in (('log', log), ('handle_log', handle_log)):
            getattr(f, name)('m')
            expect('%s.%s()' % (fname, name), m.manual(name, False))
            getattr(f, name)('m', exception=ValueError())
            expect('%s.%s(exception)' % (fname, name), m.manual(name, True))
            if fname == 'log':
                getattr(f, name)('m', level=5)
                expect('%s.%s(level=5)' % (fname, name), m.manual(5, False))
        with getattr(log, name):
            pass
        expect('with log.%s' % name, m.manual(name, False))
        with getattr(log, name).suppress(ValueError):
            raise ValueError
        expect('with log.%s.suppress, failing' % name, m.manual(name, True))
        with getattr(log, name)('m'):
            pass
        expect('with log.%s()' % name, m.manual(name, False))
    with log:
        pass
    expect('with log', m.manual(None, False))
    for n in (0, 10, 30, 40):
        lg = logging.root
        lg.setLevel(0)
        if n:
            lg.log(n, 'std')
            expect('logging.log(%d)' % n, m.manual(n, False))
    for level, err, ok, bad in w.decorated:
        ok()
        expect('decorator(level=%s, errors_level=%s), success' % (level, err), m.auto(level, err, False))
        try:
            bad()
        except ValueError:
            pass
        expect('decorator(level=%s, errors_level=%s), error' % (level, err), m.auto(level, err, True))


def sequence(c, ops):
    w = World()
    m = Model()
    for o in ops:
        OPS[o](m)
        c.op()
    probe(c, w, m)
    c.state(tuple(sorted(m.s.items())), tuple(sorted(m.names.items())))


def standard(c, case):
    config.standard_levels()
    w = []
    config.add_handlers(handler(lambda i: w.append(i['level'])))
    names = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
    threshold, low = case
    config.set(level=threshold.lower() if low else threshold)
    for n, v in names.items():
        for name in (n, n.lower()):
            for f in (lambda: log('m', level=name), lambda: getattr(log, name)('m'), lambda: getattr(handle_log, name)('m'), lambda: log(level=name)(lambda: 1)()):
                f()
                c.op()
                c.eq(w, [v] if v >= names[threshold] else [], 'records of %s at threshold %s' % (name, threshold))
                w.clear()


def accepted(c, case):
    """The level is compared when the record is written, not when it is handled."""
    pool, form, change = case
    config.set(time_quant=0.1)
    config.set(pool_size=pool)
    config.levels(aaa=3)
    out = []

    def slow(item):
        import time
        time.sleep(1)
        out.append((item['message'], item['level']))
    config.add_handlers(slow)
    config.set(level=3)

    def write(m, level):
        if form == 'log':
            log(m, level=level)
        elif form == 'auto':
            log(m, level=level)(lambda: 1)()
        else:
            with log(m, level=level):
                pass
    write('one', 'aaa')
    write('two', 2)
    write('three', 4)
    if change == 'up':
        config.set(level=50)
    elif change == 'rename':
        config.levels(aaa=1)
    else:
        config.set(level=0)
    write('four', 2)
    c.op(5)
    flush()
    want = [('one', 3), ('three', 4)] + ([('four', 2)] if change == 'down' else [])
    if pool == 1:
        c.eq(out, want, 'records')
    else:
        c.eq(sorted(out), sorted(want), 'records')


class Moment(Program):
    """The level is raised or lowered while another thread writes records with various levels."""

    def __init__(self, form, up):
        self.form, self.up = form, up
        self.name = 'moment-%s-%s' % (form, 'up' if up else 'down')
        self.trace = (P + 'loggers', P + 'core/stores/settings', P + 'core/utils/get_errors_level.py', P + 'core/stores/levels.py')

    def run(self, k):
        with calm():
            out = []
            config.add_handlers(handler(lambda i: out.append((i['message'], i['level']))))
            config.set(level=0 if self.up else 9)

            def fail():
                raise ValueError
            decos = {n: log('m%d' % n, level=n, errors_level=n)(fail if self.form == 'err' else (lambda: 1)) for n in (4, 12)}

        def change():
            config.set(level=9 if self.up else 0)

        def write(n):
            if self.form == 'log':
                log('m%d' % n, level=n)
            elif self.form == 'block':
                with log('m%d' % n, level=n):
                    pass
            else:
                try:
                    decos[n]()
                except ValueError:
                    pass
        t = thread(change)
        write(4)
        write(12)
        t.join()
        with calm():
            write(4)
        mid = [x for x in out]
        k.observe(tuple(mid))
        k.check(mid.count(('m12', 12)) == 1, 'the record above both thresholds was written %s times', mid.count(('m12', 12)))
        n = mid.count(('m4', 4))
        k.check(n in ((0, 1) if self.up else (1, 2)), 'records of the low level: %s', mid)
        k.check(all(x in (('m4', 4), ('m12', 12)) for x in mid), 'a record with a wrong level: %s', mid)


def run(ctx):
    depth = ctx.pick(3, 4)
    ctx.cases('sequences', (s for d in range(depth + 1) for s in itertools.product(OPS, repeat=d)), sequence, managed=False, limit=ctx.pick(150, 7200))
    ctx.cases('standard levels', itertools.product(('NOTSET', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'), (False, True)), standard, managed=False)
    ctx.cases('accepted records', itertools.product((1, 2, 3), ('log', 'auto', 'block'), ('up', 'down', 'rename')), accepted)
    for form in ('log', 'auto', 'err', 'block'):
        for up in (True, False):
            ctx.explore(Moment(form, up), 1, 2)
