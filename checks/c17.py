"""C17: the file lock gives mutual exclusion between threads and between processes, and nobody waits forever."""
import errno
import itertools
import os
import select
import sys
import time

from polog import config, file_writer, log

from mc import sched
from mc.sched import calm
from checks import files
from checks.common import P, Program, flush, fresh_dir, thread

FILES = (P + 'handlers/file', )


def fmt(item):
    return '<%s>\n' % item['message']


def make(i, target, arch, lock, rotation, several, **more):
    options = dict(more)
    if rotation:
        options['rotation'] = '%s >> %s' % (rotation, arch)
    if several:
        options['filter'] = (lambda i: lambda item: item['message'][0] == 'abcd'[i])(i)
    return file_writer(target, lock_type=lock, formatter=fmt, **options)


class Exclusion(Program):
    """No two operations on the file overlap, in any schedule."""
    exclude = (P + 'tests', )

    def __init__(self, name, lock, records, handlers=1, rotation=None, trace=FILES, pool=0, target='path', forced=True):
        self.name, self.lock, self.records, self.handlers, self.rotation = name, lock, records, handlers, rotation
        self.trace, self.pool, self.target, self.forced = trace, pool, target, forced

    def run(self, k):
        with calm():
            d = fresh_dir()
            path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
            watch = files.Watch(d).install()
            slow = None
            if self.target != 'path':
                slow = files.Slow()
                if self.target == 'stdout':
                    sys.stdout, real = slow, sys.stdout
            for i in range(self.handlers):
                if self.target == 'stdout':
                    h = file_writer(lock_type=self.lock, formatter=fmt)
                else:
                    h = make(i, slow or path, arch, self.lock, self.rotation, self.handlers > 1, forced_flush=self.forced)
                config.add_handlers(h)
            if self.target == 'stdout':
                sys.stdout = real
            if self.pool:
                config.set(pool_size=self.pool)
            log('a0')

        def body(tags):
            for t in tags:
                log(t)
        ts = [thread(body, tags) for tags in self.records[1:]]
        body(self.records[0])
        for t in ts:
            t.join()
        if self.pool:
            flush()
        k.eq(watch.overlaps, [], 'operations on the file at the same time')
        if slow:
            k.eq(slow.overlaps, [], 'operations on the file object at the same time')
        k.observe(len(watch.log))


def exclusions():
    ab = (('a',), ('b',))
    yield Exclusion('thread', 'thread', ab, trace=()), 3, 4
    yield Exclusion('thread-rotation', 'thread', ab, rotation='3 b', trace=()), 3, 4
    yield Exclusion('thread-lines', 'thread', ab, rotation='3 b'), 1, 2
    yield Exclusion('thread-three', 'thread', ab + (('c',),), rotation='3 b', trace=()), 2, 3
    yield Exclusion('thread-pool', 'thread', (('a', 'b'),), pool=2, trace=()), 2, 3
    yield Exclusion('object', 'thread', ab, target='object', trace=()), 3, 4
    yield Exclusion('stdout', 'thread', ab, target='stdout', trace=()), 2, 3
    yield Exclusion('combined', 'thread+file', ab, rotation='3 b', trace=()), 3, 4
    yield Exclusion('combined-lines', 'thread+file', ab, rotation='3 b'), 1, 2
    yield Exclusion('combined-three', 'thread+file', ab + (('c',),), trace=()), 2, 3
    yield Exclusion('two-handlers', 'thread+file', ab, handlers=2, trace=()), 3, 4
    yield Exclusion('two-handlers-rotation', 'thread+file', ab, handlers=2, rotation='3 b', trace=()), 2, 3
    yield Exclusion('two-handlers-lines', 'thread+file', ab, handlers=2), 2, 3
    yield Exclusion('two-handlers-rotation-lines', 'thread+file', ab, handlers=2, rotation='3 b'), 1, 2
    yield Exclusion('two-handlers-three', 'thread+file', ab + (('aa',),), handlers=2, trace=()), 2, 3
    yield Exclusion('two-handlers-four', 'thread+file', (('a',), ('b',), ('aa',), ('bb',)), handlers=2, trace=()), 1, 3
    yield Exclusion('two-handlers-unflushed', 'thread+file', ab, handlers=2, forced=False, rotation='3 b', trace=()), 2, 3
    yield Exclusion('file-only', 'file', ab, handlers=2, rotation='3 b', trace=()), 2, 3
    yield Exclusion('file-only-lines', 'file', ab, handlers=2), 1, 2
    yield Exclusion('three-handlers', 'file+thread', ab + (('c',),), handlers=3, trace=()), 2, 3


# -- failures -----------------------------------------------------------------------------------------------------------
ERRORS = dict(os=lambda: OSError(errno.ENOSPC, 'no space'), value=lambda: ValueError('closed'), base=lambda: KeyboardInterrupt())


def failing(c, spec):
    """An operation fails at any point, several times; afterwards the handler and other handlers of the file still work."""
    lock, handlers, rotation, ops, error, times = spec
    d = fresh_dir()
    path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
    watch = files.Watch(d, points=False).install()
    import fcntl
    flock = fcntl.flock
    held = []

    def faulty_flock(fd, op):
        name = 'unlock' if op & fcntl.LOCK_UN else 'lock'
        if name == 'unlock':
            r = flock(fd, op)       # the system call has done its work when the error is noticed
            watch.fault(name)
            return r
        watch.fault(name)
        return flock(fd, op)
    fcntl.flock = faulty_flock
    for i in range(handlers):
        config.add_handlers(make(i, path, arch, lock, rotation, handlers > 1))
    log('a0')
    for op in ops:
        watch.faults[op] = [ERRORS[error]() for _ in range(times)]
    done = []

    def one(tag):
        try:
            log(tag)
        except KeyboardInterrupt:
            pass
        done.append(tag)
    for n in range(times):
        t = thread(one, 'a%d' % (n + 1))
        t.join(50)
        c.op()
    watch.faults.clear()
    for tag in ('aX', 'bX', 'aY'):
        t = thread(one, tag)
        t.join(50)
        c.op()
        if tag not in done:
            c.bad('after a failure of %s nobody gets the lock any more', '+'.join(ops))
            return
    text = ''.join(files.union(path, arch))
    for tag in ('aX', 'aY') + (('bX',) if handlers > 1 else ()):
        if text.count('<%s>' % tag) != 1:
            c.bad('after a failure of %s the record %r is written %d times', '+'.join(ops), tag, text.count('<%s>' % tag))
    c.eq(watch.overlaps, [], 'operations at the same time')
    c.state(lock, handlers, rotation, ops, error)


def failing_cases(thorough):
    ops = ['write', 'flush', 'move', 'open a', 'open x', 'lock', 'unlock']
    combos = [(o,) for o in ops] + list(itertools.combinations(ops, 2))
    for lock, handlers in (('thread', 1), ('thread+file', 1), ('thread+file', 2), ('file', 2)):
        for rotation in (None, '3 b'):
            for combo in combos:
                if not rotation and set(combo) & {'move', 'open a', 'open x'}:
                    continue
                if 'file' not in lock and set(combo) & {'lock', 'unlock'}:
                    continue
                for error in ERRORS:
                    for times in (1, 2, 3) if thorough else (1, 2):
                        yield (lock, handlers, rotation, combo, error, times)


# -- processes ----------------------------------------------------------------------------------------------------------
def contest(c, spec):
    """
    One process stands inside an operation on the file; another process, which has its own handler or was forked with a
    live one, tries to use the file: it must not get in until the first one has left (or failed, or died).
    """
    lock, forked, op, end = spec
    d = fresh_dir()
    path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
    watch = files.Watch(d, points=False).install()
    rotation = '3 b' if op == 'move' else None

    def setup():
        h = make(0, path, arch, lock, rotation, False)
        config.add_handlers(h)
        return h
    if forked:
        setup()
        if forked == 'used' or op == 'move':
            log('W')
    elif op == 'move':
        files._open(path, 'w').write('old\n')

    def spawn(who, first):
        """A process that reports every entry into an operation and, if first, waits inside."""
        go_r, go_w = os.pipe()
        rep_r, rep_w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(go_r)
            os.close(rep_w)
            return pid, go_w, rep_r
        code = 0
        try:
            if not forked:
                setup()
            real = watch.doing
            waited = []

            def doing(name, key, fn):
                def inner():
                    os.write(rep_w, b'i')
                    if first and name == op and not waited:
                        waited.append(1)
                        os.write(rep_w, b's')
                        os.read(go_r, 1)
                        if end == 'fail':
                            raise OSError('failed')
                        if end == 'die':
                            os._exit(0)
                    return fn()
                return real(name, key, inner)
            watch.doing = doing
            os.write(rep_w, b'r')
            os.read(go_r, 1)
            log(who)
            os.write(rep_w, b'd')
            os.read(go_r, 1)
        except BaseException:    # noqa
            code = 1
        os._exit(code)

    def until(fd, wanted, seconds):
        seen = b''
        stop = time.monotonic() + seconds
        while True:
            left = stop - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                return seen, False
            b = os.read(fd, 1)
            if not b:
                return seen, False
            seen += b
            if b == wanted:
                return seen, True
            if b == b'd':
                return seen, False
    p0 = spawn('first', True)
    p1 = spawn('second', False)
    for p in (p0, p1):
        if not until(p[2], b'r', 20)[1]:
            c.bad('a process does not start')
    os.write(p0[1], b'g')
    seen, inside = until(p0[2], b's', 20)
    if not inside and b'd' not in seen:
        c.bad('the first process neither reaches its %s nor finishes', op)
    os.write(p1[1], b'g')
    seen, _ = until(p1[2], b'i', 0.12)
    if inside and b'i' in seen:
        c.bad('a process uses the file while another one is inside a %s', op)
    os.write(p0[1], b'g')
    if not until(p1[2], b'd', 20)[1]:
        c.bad('the second process waits forever after the first one left')
    for p in (p0, p1):
        try:
            os.write(p[1], b'ggg')
        except OSError:
            pass
        os.waitpid(p[0], 0)
    text = ''.join(files.union(path, arch))
    if text.count('<second>') != 1:
        c.bad('the record of the second process is written %d times', text.count('<second>'))
    c.op(2)
    c.state(*spec)


def contest_cases():
    for lock in ('file', 'thread+file', 'file + thread'):
        for forked in (None, 'fresh', 'used'):
            for op in ('write', 'flush', 'move'):
                for end in ('leave', 'fail', 'die'):
                    yield (lock, forked, op, end)


# -- the option ---------------------------------------------------------------------------------------------------------
def option(c, spec):
    """Which lock types are accepted."""
    value, ok = spec
    path = os.path.join(fresh_dir(), 'f.log')
    for target in (path, files.Slow(), None):
        try:
            file_writer(*([target] if target else []), lock_type=value)
            got = 'accepted'
        except ValueError:
            got = 'rejected'
        except BaseException as e:    # noqa
            got = 'crashed with %r' % e
        c.eq(got, 'accepted' if ok else 'rejected', 'lock_type=%r' % (value,))
        c.op()


def option_cases():
    words = ('file', 'thread', 'unknown', 'threads', 'FILE', '')
    yield None, True
    for v in (1, True, False, b'file', ['file'], ('thread',), 1.5):
        yield v, False
    for n in (1, 2, 3):
        for combo in itertools.product(words, repeat=n):
            for sep in ('+', ' + '):
                text = sep.join(combo)
                real = [w for w in combo if w]
                ok = bool(real) and all(w in ('file', 'thread') for w in real) and len(set(real)) == len(real)
                if '' in combo and ok or not text.strip(' +') and text.strip():
                    continue            # stray plus signs: the documentation does not say
                yield text, ok


def run(ctx):
    ctx.cases('option', option_cases(), option, managed=False, batch=20)
    ctx.cases('failing', failing_cases(ctx.thorough), failing)
    ctx.cases('processes', contest_cases(), contest, managed=False)
    for scn, q, t in exclusions():
        ctx.explore(scn, q, t)
