"""C18: rotation happens exactly when the rule says so and never destroys data."""
import builtins
import datetime
import errno
import itertools
import os
import shutil
import threading

from polog import config, file_writer, log

from mc.sched import calm
from checks import files
from checks import volume
from checks.common import P, Program, flush, fresh_dir, handler, thread

UNITS = {}
for power, (short, full) in enumerate((('b', 'byte'), ('kb', 'kilobyte'), ('mb', 'megabyte'), ('gb', 'gigabyte'), ('tb', 'terabyte'), ('pb', 'petabyte'))):
    for spelling in (short, full, full + 's'):
        UNITS[spelling] = 1024 ** power


def fmt(item):
    return item['message'] + '\n'


def places(d):
    return os.path.join(d, 'f.log'), os.path.join(d, 'arch')


class FakeSize:
    """Lets one path look as big as we like; everything else stays real."""

    def __init__(self, path):
        self.path = os.path.abspath(path)
        self.size = None
        real, realf = os.stat, os.fstat
        me = self

        class Stat:
            def __init__(self, st):
                self.st = st

            def __getattr__(self, name):
                return me.size if name == 'st_size' else getattr(self.st, name)

            def __getitem__(self, i):
                return me.size if i == 6 else self.st[i]

        def stat(path, *a, **k):
            st = real(path, *a, **k)
            if me.size is not None and isinstance(path, (str, os.PathLike)) and os.path.abspath(os.fspath(path)) == me.path:
                return Stat(st)
            return st

        def fstat(fd):
            st = realf(fd)
            if me.size is not None:
                try:
                    now = real(me.path)
                except OSError:
                    return st
                if (st.st_dev, st.st_ino) == (now.st_dev, now.st_ino):
                    return Stat(st)
            return st
        os.stat, os.fstat = stat, fstat


def unit(c, spec):
    """The limit is the number times the unit: below it nothing happens, at it and above the file is rotated."""
    number, word, sizes = spec
    d = fresh_dir()
    path, arch = places(d)
    with open(path, 'w') as f:
        f.write('old\n')
    fake = FakeSize(path)
    fake.size = 0
    for gap in ('%s %s >> %s', '  %s   %s>>%s  '):
        h = file_writer(path, rotation=gap % (number, word, arch), formatter=fmt)
        config.add_handlers(h)
        limit = number * UNITS[word]
        for size in sizes:
            size = max(0, size + limit if isinstance(size, int) else int(limit * float(size)))
            fake.size = size
            before = len(files.archives(arch))
            log('x')
            rotated = len(files.archives(arch)) - before
            want = 1 if size >= limit else 0
            if rotated != want:
                c.bad('rule "%s %s": the file has %d bytes, the limit is %d, rotations: %d', number, word, size, limit, rotated)
            c.op()
            c.state(word, number, size)
        config.delete_handlers(h)


def unit_cases(thorough):
    numbers = (1, 2, 3, 7, 10, 100, 1023, 1024, 1025, 99999) if not thorough else (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 20, 100, 200, 500, 1000, 1023, 1024, 1025, 2048, 99999, 10 ** 12)
    for word in UNITS:
        for number in numbers:
            yield (number, word, (-1, 0, 1, 0, -1, '0.5', '0.999', '1.001', '2', '1024', '0.0009765625'))


# -- the rule language ----------------------------------------------------------------------------------------------------
def language(c, spec):
    """Which rules are understood, and to what limit."""
    text, limit, where = spec
    d = fresh_dir()
    os.chdir(d)
    path = os.path.join(d, 'f.log')
    open(path, 'w').close()
    fake = FakeSize(path)
    try:
        h = file_writer(path, rotation=text, formatter=fmt)
    except ValueError:
        if limit != 'bad':
            c.bad('the rotation %r is rejected', text)
        return
    except BaseException as e:    # noqa
        c.bad('the rotation %r fails with %r', text, e)
        return
    if limit == 'bad':
        c.bad('the wrong rotation %r is accepted', text)
        return
    config.add_handlers(h)
    total = 0
    for size in ((0, 10 ** 18) if limit is None else (0, limit - 1, limit, limit - 1, limit + 1, 10 ** 18)):
        fake.size = size
        log('x')
        want = limit is not None and size >= limit
        total += want
        got = len(files.archives(os.path.join(d, where))) if os.path.isdir(os.path.join(d, where)) else 0
        c.eq(got, total, 'archives in %r after a record with %d bytes under the rule %r' % (where, size, text))
        c.op()
    c.state(text)


def language_cases(thorough):
    atoms = [('5 b', 5), ('2 kb', 2048), ('1 megabyte', 1048576), ('3 gigabytes', 3 << 30), ('20 bytes', 20), ('1 pb', 1 << 50)]
    for text, limit in atoms:
        yield text, limit, 'logs'
        yield text + '>>', limit, 'logs'
        for dest, where in (('>>a', 'a'), (' >> a', 'a'), (' >>  a/b/c  ', 'a/b/c'), (' >> with space', 'with space'), ('>> ./dot', 'dot'), ('>> a;b', 'a;b'), ('>> a,b', 'a,b'), ('>> 5 kb', '5 kb'), ('>> Ы', 'Ы')):
            yield text + dest, limit, where
    for n in (2, 3):
        for combo in itertools.permutations(atoms, n):
            if n == 3 and not thorough and combo[0][0] > combo[1][0]:
                continue
            for sep in (',', ';', ' , ', ', ', ' ;') if n == 2 else (', ', ';'):
                yield sep.join(x for x, _ in combo) + ' >> a', min(v for _, v in combo), 'a'
    mixed = atoms[:3]
    yield '5 b, 2 kb; 1 megabyte >> a', 5, 'a'
    yield '2 kb,, 5 b;>> a', 5, 'a'
    for bad in ('5', 'b', 'kb 5', '5 5', '5 5 b', '5 b b', 'five b', '0 b', '-1 b', '-5 kb', '0 petabytes', '1.5 kb', '5 bs', '5 kbs', '5 bytess', '5 KBs', '5b', '5kb',
                '5 kilo', '5 zb', '5 b x', 'x 5 b', '* b', '5 *', '. b', '5 s', 'n s', '5 b 6 kb', 'every day', '12:00', '5 b and 6 b', '5 petabyte s', '1 b 1', '--5 b', '5 -b', '5 b-'):
        yield bad, 'bad', ''
        yield bad + ' >> a', 'bad', ''
        yield '5 b, ' + bad + ' >> a', 'bad', ''
        yield bad + '; 2 kb', 'bad', ''
    for bad in ('5 b >> a >> b', '5 b >>>> a', '>> a >> b', '5 b >> a >>', '1 kb >> >> a'):
        yield bad, 'bad', ''
    yield None, None, 'logs'


def without_file(c, spec):
    """Rotation needs a path."""
    rotation, target = spec
    obj = {'stdout': [], 'object': [files.Slow()], 'file': [open(os.path.join(fresh_dir(), 'f'), 'w')], 'path': [os.path.join(fresh_dir(), 'p')]}[target]
    try:
        file_writer(*obj, rotation=rotation)
        got = 'accepted'
    except ValueError:
        got = 'rejected'
    except BaseException as e:    # noqa
        got = repr(e)
    ok = rotation is None or (isinstance(rotation, str) and target == 'path')
    c.eq(got, 'accepted' if ok else 'rejected', 'rotation=%r for %s' % (rotation, target))
    c.op()


def without_file_cases():
    for target in ('stdout', 'object', 'file', 'path'):
        for rotation in (None, '5 b', '5 b >> a', '1 kb, 2 mb >> x', 5, ['5 b'], True, b'5 b'):
            yield rotation, target


# -- histories --------------------------------------------------------------------------------------------------------------
class FixedClock:
    """Several rotations at one moment."""

    def __init__(self):
        real = datetime.datetime

        class Fixed(real):
            @classmethod
            def now(cls, tz=None):
                return real(2024, 2, 3, 4, 5, 6, 7, tz)

            @classmethod
            def utcnow(cls):
                return real(2024, 2, 3, 4, 5, 6, 7)

            @classmethod
            def today(cls):
                return real(2024, 2, 3, 4, 5, 6, 7)
        datetime.datetime = Fixed
        import time
        time.time = lambda: 1706933106.000007


class Model:
    """What must be on the disk."""

    def __init__(self, limits, current=''):
        self.limits, self.current, self.archives = limits, current, []

    def write(self, text):
        if self.limits and len(self.current.encode()) >= min(self.limits):
            self.archives.append(self.current)
            self.current = ''
        self.current += text


TEXTS = {'1': 'a', '3': 'bcd', '8': 'efghijk.', 'u': 'ыы', 'L': 'L' * 9000}


def history(c, spec):
    """After every operation the file and the archives are exactly what the model says, and no archive ever changes."""
    limits, existing, fixed, lock, forced, ops = spec
    d = fresh_dir()
    path, arch = places(d)
    if fixed:
        FixedClock()
    if existing is not None:
        with open(path, 'w') as f:
            f.write(existing)
    rule = '%s >> %s' % (', '.join('%d b' % x for x in limits), arch)
    counter = [0]

    def make():
        counter[0] += 1
        return file_writer(path, rotation=rule, formatter=fmt, lock_type=lock, forced_flush=forced)
    h = make()
    config.add_handlers(h)
    m = Model(limits, existing or '')
    seen = {}
    for n, op in enumerate(ops):
        if op == 'new':
            # the program is restarted
            config.delete_handlers(h)
            h = None
            h = make()
            config.add_handlers(h)
        else:
            log(TEXTS[op])
            m.write(TEXTS[op] + '\n')
        c.op()
        have = files.archives(arch) if os.path.isdir(arch) else {}
        for name, text in seen.items():
            if have.get(name) != text:
                c.bad('the archive %s changed from %.60r to %.60r', name, text, have.get(name))
        seen = have
        if not c.eq(sorted(have.values()), sorted(m.archives), 'archives after %r' % (ops[:n + 1],)):
            return
        if forced:
            c.eq(files.read(path), m.current, 'the log file after %r' % (ops[:n + 1],))
    config.delete_handlers(h)
    h = None
    import gc
    gc.collect()
    c.eq(files.read(path), m.current, 'the log file at the end of %r' % (ops,))
    c.state(limits, existing, len(m.archives), ops)


def history_cases(thorough):
    depth = 5 if thorough else 4
    for limits in ((1,), (2,), (4,), (9,), (5, 12), (30, 7, 9)):
        for existing in (None, '', 'old\n', 'x' * 50 + '\n'):
            for fixed, lock in ((False, 'thread'), (True, 'thread'), (True, 'thread+file'), (False, None)):
                for ops in itertools.product(('1', '3', '8', 'u', 'new'), repeat=depth):
                    if ops[-1] == 'new' or (not thorough and ((fixed, lock) != (True, 'thread') and ops[0] in '8u' or ('u' in ops and limits not in ((4,), (5, 12))))):
                        continue
                    yield (limits, existing, fixed, lock, True, ops)
    for limits in ((1,), (100,), (9000,)):
        for forced in (True, False):
            for ops in itertools.product(('1', 'L', '3'), repeat=depth):
                if forced:
                    yield (limits, None, True, 'thread', True, ops)
                else:
                    yield (limits[:1], None, True, 'file', False, ops)


def shared(c, spec):
    """Handlers of different files (and a stranger's files) use one archive folder at one moment."""
    paths, lock, order = spec
    FixedClock()
    d = fresh_dir()
    arch = os.path.join(d, 'arch')
    os.makedirs(arch)
    with open(os.path.join(arch, 'stranger'), 'w') as f:
        f.write('mine')
    models = {}
    for i in range(2):
        path = os.path.join(d, paths[i])
        models.setdefault(path, Model((3,)))
        config.add_handlers(file_writer(path, rotation='3 b >> ' + arch, formatter=fmt, lock_type=lock, filter=(lambda i: lambda item: item['message'].startswith(str(i)))(i)))
    seen = {}
    for n, i in enumerate(order):
        text = '%d%s' % (i, 'x' * n)
        log(text)
        models[os.path.join(d, paths[i])].write(text + '\n')
        c.op()
        have = files.archives(arch)
        for name, old in seen.items():
            if have.get(name) != old:
                c.bad('the archive %s changed from %r to %r', name, old, have.get(name))
        seen = have
        c.eq(sorted(have.values()), sorted([a for m in models.values() for a in m.archives] + ['mine']), 'archives')
        for path, m in models.items():
            c.eq(files.read(path), m.current if m.current or m.archives else files.read(path), 'the log file')
    c.state(paths, lock, order)


def shared_cases(thorough):
    for paths in (('a.log', 'b.log'), ('a.log', 'a.log')):
        for lock in ('thread', 'thread+file') if paths[0] != paths[1] else ('thread+file', 'file'):
            for order in itertools.product((0, 1), repeat=7 if thorough else 6):
                yield (paths, lock, order)


# -- faults and crashes -------------------------------------------------------------------------------------------------------
class Disk:
    """Counts the operations on files below a folder; the chosen ones fail, or the process dies there."""
    NAMES = ((os, 'rename'), (os, 'replace'), (os, 'mkdir'), (os, 'remove'), (os, 'unlink'), (os, 'link'), (os, 'stat'), (os, 'truncate'), (os, 'makedirs'), (shutil, 'copyfile'), (os, 'rmdir'))

    def __init__(self, folder):
        self.folder = os.path.abspath(folder)
        self.on = False
        self.count = 0
        self.fail = {}
        self.die = None
        self.hit = 0
        self.names = []
        for mod, name in self.NAMES:
            self.wrap(mod, name)
        self.real_open = builtins.open
        builtins.open = self.open

    def ours(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return p.startswith(self.folder) and not p.endswith('.lock')

    def step(self, name):
        n = self.count
        self.count += 1
        self.names.append(name)
        if self.die == n:
            os._exit(0)
        e = self.fail.get(n)
        if e is not None:
            self.hit += 1
            raise OSError(getattr(errno, e), 'injected', name)

    def wrap(self, mod, name):
        real = getattr(mod, name)

        def op(path, *a, **k):
            if self.on and self.ours(path):
                if name == 'copyfile':
                    try:
                        self.step(name)
                    except OSError:
                        with self.real_open(path, 'rb') as src, self.real_open(a[0], 'wb') as dst:
                            dst.write(src.read(2))      # a part of the copy is there
                        raise
                else:
                    self.step(name)
            return real(path, *a, **k)
        setattr(mod, name, op)

    def open(self, file, mode='r', *a, **k):
        if self.on and isinstance(file, (str, os.PathLike)) and self.ours(file) and mode[0] != 'r':
            self.step('open ' + mode)
        return self.real_open(file, mode, *a, **k)


def setup_disk(lock, far, existing):
    d = fresh_dir()
    path, arch = places(d)
    disk = Disk(d)
    if existing:
        os.makedirs(arch)
    h = file_writer(path, rotation='3 b >> ' + arch, formatter=fmt, lock_type=lock)
    config.add_handlers(h)
    if far:
        # the archive folder is on another file system: a rename is impossible, the file is copied
        rename = os.rename

        def no_rename(src, dst, *a, **k):
            if os.path.abspath(dst).startswith(arch) != os.path.abspath(src).startswith(arch):
                raise OSError(errno.EXDEV, 'another file system')
            return rename(src, dst, *a, **k)
        os.rename = os.replace = no_rename
    return h, path, arch, disk


def faulty(c, spec):
    """Some operations of the disk fail: every record is written all the same, exactly once, and later rotations work."""
    lock, far, existing, positions, error, span = spec
    FixedClock()
    h, path, arch, disk = setup_disk(lock, far, existing)
    log('one1')
    log('two2')
    for n in positions:
        for i in range(span):
            disk.fail[n + i] = error
    disk.on = True
    log('three')
    disk.on = False
    want = ['one1', 'two2', 'three']
    c.op(3)
    lines = [x for p in files.union(path, arch) for x in p.split('\n') if x]
    missing = [w for w in want if w not in lines]
    if missing:
        c.bad('lost %r when operations %r (%r) failed; on the disk: %r', missing, positions, disk.names[:max(positions) + span], lines)
    copies = far or 'copyfile' in disk.names     # an interrupted copy cannot always be cleaned up
    if not missing and sorted(lines) != sorted(want) and not copies:
        c.bad('on the disk are %r instead of %r when operations %r (%r) failed', lines, want, positions, disk.names)
    c.state(lock, far, tuple(disk.names), positions)
    if not disk.hit:
        c.trivial = True
    for w in ('four', 'five', 'six66'):
        log(w)
        want.append(w)
        c.op()
    parts = files.union(path, arch)
    lines = [x for p in parts for x in p.split('\n') if x]
    missing = [w for w in want if w not in lines]
    if missing or (sorted(lines) != sorted(want) and not copies):
        c.bad('afterwards: lost %r, on the disk %r, when operations %r (%r) failed', missing, lines, positions, disk.names[:max(positions) + span])
    if len(positions) == span == 1:
        c.eq(files.read(path), 'six66\n', 'the log file when rotation works again')


def faulty_cases(thorough):
    for lock in ('thread', 'thread+file', None):
        for far in (False, True):
            for existing in (False, True):
                for error in ('EACCES', 'ENOSPC', 'EIO', 'ENOENT'):
                    for n in range(16 if far else 12):
                        for span in (1, 2, 50):
                            yield (lock, far, existing, (n,), error, span)
                    if thorough or (error == 'EACCES' and lock == 'thread'):
                        for pair in itertools.combinations(range(16 if far else 12), 2):
                            yield (lock, far, existing, pair, error, 1)
                if thorough:
                    for trio in itertools.combinations(range(14 if far else 10), 3):
                        yield (lock, far, existing, trio, 'EACCES', 1)


def crash(c, spec):
    """The process dies before any operation of a rotation: what was written before is still there."""
    lock, far, existing, n, later = spec
    FixedClock()
    h, path, arch, disk = setup_disk(lock, far, existing)
    pid = os.fork()
    if pid == 0:
        try:
            log('one1')
            if later:
                log('two2')
            disk.die = n
            disk.on = True
            log('three')
        finally:
            os._exit(7)
    _, st = os.waitpid(pid, 0)
    survived = os.WEXITSTATUS(st) == 7
    want = ['one1'] + (['two2'] if later else []) + (['three'] if survived else [])
    c.trivial = survived
    # the next process goes on with the same files
    config.delete_handlers(h)
    h = None
    config.add_handlers(file_writer(path, rotation='3 b >> ' + arch, formatter=fmt, lock_type=lock))
    for text in (None, 'next', 'more'):
        if text:
            log(text)
            want.append(text)
        lines = [x for p in files.union(path, arch) for x in p.split('\n') if x]
        missing = [w for w in want if w not in lines]
        if missing:
            c.bad('lost %r after a crash before operation %d', missing, n)
        elif not far and sorted(lines) != sorted(want):
            c.bad('on the disk are %r instead of %r after a crash before operation %d', lines, want, n)
        c.op()
    c.state(*spec)


def crash_cases():
    for lock in ('thread', 'thread+file', None):
        for far in (False, True):
            for existing in (False, True):
                for n in range(20):
                    for later in (False, True):
                        yield (lock, far, existing, n, later)


def obstacle(c, spec):
    """Real obstacles: the archive folder cannot be created, is a file, is dangling or disappears."""
    kind, lock, ops = spec
    d = fresh_dir()
    path, arch = places(d)
    if kind == 'file':
        open(arch, 'w').write('in the way')
    elif kind == 'parent-file':
        open(os.path.join(d, 'p'), 'w').write('in the way')
        arch = os.path.join(d, 'p', 'arch')
    elif kind == 'dangling':
        os.symlink(os.path.join(d, 'nowhere', 'x'), arch)
    elif kind == 'name-too-long':
        arch = os.path.join(d, 'x' * 300)
    elif kind == 'nul':
        arch = os.path.join(d, 'a\0b')
    h = file_writer(path, rotation='3 b >> ' + arch, formatter=fmt, lock_type=lock)
    config.add_handlers(h)
    want = []
    for n, op in enumerate(ops):
        if op == 'w':
            log('rec%d' % n)
            want.append('rec%d' % n)
        elif op == 'clear' and kind == 'vanish':
            pass
        c.op()
    lines = [x for p in files.union(path, arch if kind in ('vanish',) else None) for x in p.split('\n') if x]
    c.eq(lines, want, 'lines when the archive folder is impossible (%s)' % kind)
    if kind == 'file':
        c.eq(files.read(arch), 'in the way', 'the file in the way')
    if kind == 'parent-file':
        c.eq(files.read(os.path.join(d, 'p')), 'in the way', 'the file in the way')
    c.state(*spec)


def obstacle_cases():
    for kind in ('file', 'parent-file', 'dangling', 'name-too-long', 'nul'):
        for lock in ('thread', 'thread+file', 'file', None):
            for n in (1, 2, 3, 5):
                yield (kind, lock, ('w',) * n)


class OneRotation(Program):
    """Threads that notice a full file at the same time rotate it once; archives are never empty or overwritten."""
    exclude = (P + 'tests', )
    trace = (P + 'handlers/file', )

    def __init__(self, name, lock, handlers, threads=2, pool=0):
        self.name, self.lock, self.handlers, self.threads, self.pool = name, lock, handlers, threads, pool

    def run(self, k):
        with calm():
            FixedClock()
            d = fresh_dir()
            path, arch = places(d)
            with open(path, 'w') as f:
                f.write('o' * 49 + '\n')
            for i in range(self.handlers):
                config.add_handlers(file_writer(path, rotation='40 b >> ' + arch, formatter=fmt, lock_type=self.lock,
                                                filter=(lambda i: lambda item: int(item['message'][1]) % self.handlers == i)(i)))
            if self.pool:
                config.set(pool_size=self.pool)
        ts = [thread(log, 'r%d' % i) for i in range(1, self.threads)]
        log('r0')
        for t in ts:
            t.join()
        if self.pool:
            flush()
        k.eq(sorted(files.archives(arch).values()), ['o' * 49 + '\n'], 'archives')
        k.eq(sorted(files.read(path).split()), ['r%d' % i for i in range(self.threads)], 'lines')


def scenarios():
    yield OneRotation('one-handler', 'thread', 1), 2, 3
    yield OneRotation('three-threads', 'thread', 1, threads=3), 1, 2
    yield OneRotation('two-handlers', 'thread+file', 2), 2, 3
    yield OneRotation('two-handlers-file', 'file', 2), 2, 3
    yield OneRotation('workers', 'thread', 1, pool=2), 1, 2


def run(ctx):
    ctx.cases('units', unit_cases(ctx.thorough), unit, managed=False)
    ctx.cases('language', language_cases(ctx.thorough), language, managed=False)
    ctx.cases('without-file', without_file_cases(), without_file, managed=False)
    ctx.cases('histories', history_cases(ctx.thorough), history, managed=False, batch=1)
    ctx.cases('shared-folder', shared_cases(ctx.thorough), shared, managed=False)
    ctx.cases('faults', faulty_cases(ctx.thorough), faulty, managed=False)
    ctx.cases('crashes', crash_cases(), crash, managed=False)
    ctx.cases('obstacles', obstacle_cases(), obstacle, managed=False)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
    volume.run(ctx, 'C18')
