"""Long histories: the same guarantees after thousands of records, calls, blocks, handlers and names (default schedule)."""
import gc
import itertools
import os
import threading

from polog import config, field, file_writer, handle_log, log, message, unlog

from mc import boot
from checks import files
from checks.common import flush, fresh_dir, handler, thread


def c01(c, spec):
    """Thousands of records, two writers, reloads in between."""
    pool, limit, reloads, n = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append(i['message'])))
    if pool:
        config.set(pool_size=pool)
        config.set(max_queue_size=limit)

    def writer(k):
        for i in range(n):
            log('%d-%d' % (k, i))
            c.op()
    t = thread(writer, 1)
    for i in range(n):
        log('0-%d' % i)
        if reloads and i % (n // reloads) == 0:
            config.set(pool_size=1 + (i // (n // reloads)) % 3)
    t.join()
    flush()
    want = {'%d-%d' % (k, i) for k in (0, 1) for i in range(n)}
    c.eq(len(seen), 2 * n, 'number of records handled')
    c.eq(sorted(want - set(seen))[:5], [], 'records lost')
    if pool in (0, 1) and not reloads:
        for k in (0, 1):
            mine = [x for x in seen if x.startswith('%d-' % k)]
            if mine != ['%d-%d' % (k, i) for i in range(n)]:
                c.bad('the records of one thread are out of order')
    c.state(spec)


C01 = [(0, 0, 0, 1500), (1, 0, 0, 1500), (1, 1, 0, 800), (2, 3, 0, 800), (3, 0, 0, 1500), (2, 0, 30, 600), (1, 2, 40, 400)]


def c03(c, spec):
    """Thousands of records in the queue when the program ends."""
    pool, n = spec
    seen = []
    gate = threading.Event()

    def h(item):
        gate.wait(100)
        seen.append(item['message'])
    config.add_handlers(h)
    config.set(pool_size=pool, max_delay_before_exit=1000, level=0)
    for i in range(n):
        log(str(i))
        c.op()
    gate.set()
    errors = boot.run_exit()
    c.eq(errors, [], 'errors at exit')
    c.eq(sorted(seen, key=int)[:n + 5], [str(i) for i in range(n)], 'records handled when the exit finished')


C03 = [(1, 10), (1, 1500), (2, 1500), (3, 3000)]


def c08(c, spec):
    """Many failures through two decorators, and one failure through many."""
    kind, n = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append((i['function'], i['exception_message']))))

    @log
    def inner(x):
        raise ValueError(str(x))

    @log
    def outer(x):
        inner(x)
    if kind == 'many':
        kept = []
        for i in range(n):
            try:
                outer(i)
            except ValueError as e:
                if i % 3:
                    kept.append(e)
            c.op()
        c.eq(seen, [('inner', str(i)) for i in range(n)], 'records of %d failures' % n)
    elif kind == 'deep':
        @log
        def rec(k):
            if k == 0:
                raise ValueError('bottom')
            rec(k - 1)
        try:
            rec(n)
        except ValueError:
            pass
        c.op(n)
        c.eq(seen, [('rec', 'bottom')], 'records of one failure through %d calls' % n)
    elif kind == 'same':
        e = ValueError('same')

        @log
        def again():
            raise e
        for i in range(n):
            try:
                again()
            except ValueError:
                pass
        c.op(n)
        c.eq(seen, [('again', 'same')], 'records of one exception raised %d times' % n)


C08 = [('many', 50), ('many', 1500), ('deep', 10), ('deep', 60), ('same', 300)]


def c09(c, spec):
    """Thousands of decorated functions, alive and gone."""
    n, keep = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append((i['message'], i['level']))))
    functions = {}
    for i in range(n):
        def f():
            return 'r'
        f = log('a%d' % i, level=i)(f)
        if i % 3 == 0:
            f = log('b%d' % i, level=i + 1)(f)
        elif i % 3 == 1:
            f = unlog(f)
        if i % keep == 0:
            functions[i] = f
        c.op()
    gc.collect()
    for i, f in functions.items():
        del seen[:]
        f()
        if i % 3 == 1:
            c.eq(seen, [], 'records of function %d, banned' % i)
        else:
            c.eq(seen, [('b%d' % i, i + 1) if i % 3 == 0 else ('a%d' % i, i)], 'records of function %d' % i)


C09 = [(1500, 1), (1500, 7)]


def c10(c, spec):
    """A deep ban, and many bans one after another."""
    depth, times = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append(i['message'])))

    @unlog
    def banned(k):
        log('in')
        if k:
            banned(k - 1)
        log('in')
        if k == 3:
            raise KeyError
    for i in range(times):
        try:
            banned(depth)
        except KeyError:
            pass
        log('out%d' % i)
        c.op(depth)
    c.eq(seen, ['out%d' % i for i in range(times)], 'records')


C10 = [(2, 1000), (60, 20), (150, 3)]


def c11(c, spec):
    """Many edits: in one call, in nested calls, one after another."""
    kind, n = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append((i['message'], i['level'], i.get('k')))))
    config.add_fields(k=field(lambda i: None))
    if kind == 'calls':
        @log('plain')
        def f(i):
            if i % 2:
                message('edited%d' % i, level=i)
        for i in range(n):
            f(i)
            c.op()
        c.eq([x[:2] for x in seen], [('edited%d' % i, i) if i % 2 else ('plain', 1) for i in range(n)], 'records')
    elif kind == 'edits':
        @log('plain')
        def f():
            for i in range(n):
                message('edited%d' % i)
                message(level=i)
        f()
        f()
        c.eq([x[:2] for x in seen], [('edited%d' % (n - 1), n - 1)] * 2, 'records')
    elif kind == 'depth':
        @log('plain')
        def f(i):
            if i % 2:
                message('before%d' % i)
            if i:
                f(i - 1)
            if i % 3 == 0:
                message(level=i)
        f(n)
        c.eq([x[:2] for x in seen], [('before%d' % i if i % 2 else 'plain', i if i % 3 == 0 else 1) for i in range(n + 1)], 'records')


C11 = [('calls', 1500), ('edits', 300), ('depth', 60), ('depth', 120)]


def c12(c, spec):
    """Many blocks, deep and one after another."""
    kind, n = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append((i.get('message'), i['success'], i['level']))))
    if kind == 'row':
        for i in range(n):
            try:
                with (log if i % 2 else log('m%d' % i)) as b:
                    if i % 2:
                        b('e%d' % i)
                    if i % 5 == 0:
                        raise ValueError
            except ValueError:
                pass
            c.op()
        c.eq(seen, [('e%d' % i if i % 2 else 'm%d' % i, i % 5 != 0, 2 if i % 5 == 0 else 1) for i in range(n)], 'records')
    else:
        def nest(i):
            if i == n:
                raise KeyError
            if i % 3 == 0:
                with log as b:
                    b('d%d' % i)
                    nest(i + 1)
            elif i % 3 == 1:
                with log('d%d' % i):
                    nest(i + 1)
            else:
                with log.lev as b:
                    b('d%d' % i)
                    nest(i + 1)
        config.levels(lev=9)
        try:
            nest(0)
            c.bad('the exception did not come out')
        except KeyError:
            pass
        c.op(n)
        c.eq(seen, [('d%d' % i, False, 9 if i % 3 == 2 else 2) for i in reversed(range(n))], 'records')


C12 = [('row', 1500), ('deep', 40), ('deep', 120)]


def c13(c, spec):
    """Thousands of changes."""
    n, = spec
    seen = []
    config.add_handlers(handler(lambda i: seen.append(i['level'])))
    want = []
    for i in range(n):
        config.set(level=i % 5, default_level=i % 7)
        try:
            config.set(default_level=-i - 1)
            c.bad('accepted')
        except ValueError:
            pass
        log('x')
        c.op()
        if i % 7 >= i % 5:
            want.append(i % 7)
    c.eq(seen, want, 'levels of the records')


C13 = [(1500,)]


def c14(c, spec):
    """Hundreds of handlers, without names, with names and in branches; local name spaces over them."""
    kind, n = spec
    hits = []
    config.set(level=0)

    def make(i):
        return lambda item: hits.append(i)
    hs = [make(i) for i in range(n)]
    c.op(n)
    if kind == 'anonymous':
        for h in hs:
            config.add_handlers(h)
    elif kind == 'one-call':
        config.add_handlers(*hs)
    elif kind == 'named':
        config.add_handlers(**{'h%d' % i: h for i, h in enumerate(hs)})
    elif kind == 'deep':
        config.add_handlers({'.'.join('n%d' % k for k in range(i + 1)): h for i, h in enumerate(hs)})
    elif kind == 'local':
        f = log(handlers=hs)(lambda: None)
        f()
        c.eq(sorted(hits), list(range(n)), 'handlers of a decorator with %d of them' % n)
        log('x')
        c.eq(len(hits), n, 'handlers called for another record')
        return
    log('x')
    c.eq(sorted(hits), list(range(n)), 'handlers called')
    if kind in ('anonymous', 'one-call'):
        c.eq(hits, list(range(n)), 'order of the handlers')
    c.eq(len(config.get_handlers()), n, 'number of handlers')
    del hits[:]
    config.delete_handlers(*hs[::2])
    log('x')
    c.eq(sorted(hits), list(range(n))[1::2], 'handlers left')
    del hits[:]
    for h in hs[::2]:
        config.add_handlers(h)
    log('x')
    c.eq(sorted(hits), list(range(n)), 'handlers after half of them were taken away and registered again')


C14 = [('anonymous', 30), ('anonymous', 300), ('one-call', 250), ('named', 300), ('deep', 30), ('local', 30), ('local', 300)]


def c15(c, spec):
    kind, n = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append([i.get('f%d' % k) for k in range(n)])))
    add = config.add_fields if kind == 'place' else config.add_engine_fields
    for k in range(n):
        add(**{'f%d' % k: field((lambda k: lambda i: 'v%d' % k)(k))})
        c.op()
    for pool in (0, 1):
        config.set(pool_size=pool)
        for _ in range(50):
            log('x')
    flush()
    c.eq(len(seen), 100, 'records')
    for s in seen:
        if s != ['v%d' % k for k in range(n)]:
            c.bad('fields %s', s[:10])
            break


C15 = [('place', 200), ('engine', 200)]


def c16(c, spec):
    """Thousands of lines, hundreds of archives."""
    pool, lock, limit, n, forced = spec
    d = fresh_dir()
    path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
    options = dict(rotation='%s >> %s' % (limit, arch)) if limit else {}
    config.set(level=0)
    h = file_writer(path, lock_type=lock, forced_flush=forced, formatter=lambda item: '<%s>\n' % item['message'], **options)
    config.add_handlers(h)
    if pool:
        config.set(pool_size=pool)

    def writer(k):
        for i in range(n):
            log('%d-%d' % (k, i))
            c.op()
    t = thread(writer, 1)
    writer(0)
    t.join()
    flush()
    config.delete_handlers(h)
    del h
    gc.collect()
    parts = files.union(path, arch)
    got = [x for p in parts for x in p.split('\n')[:-1]]
    want = ['<%d-%d>' % (k, i) for k in (0, 1) for i in range(n)]
    c.eq(len(got), len(want), 'number of lines')
    c.eq(sorted(set(want) - set(got))[:5], [], 'lines lost')
    if limit and limit.endswith(' b'):
        size = int(limit.split()[0])
        big = [len(p) for p in parts if len(p.encode()) > size + 12]
        c.eq(big[:3], [], 'sizes of files that were rotated too late')
    c.state(spec, len(parts))


C16 = [(0, 'thread', None, 800, True), (0, 'thread', None, 800, False), (2, 'thread', None, 800, True), (0, 'thread', '30 b', 250, True), (2, 'thread', '200 b', 400, True), (2, 'thread+file', '100 b', 200, True), (0, 'file', None, 300, True)]


def c18(c, spec):
    """Hundreds of rotations within the same moment keep every archive."""
    n, keep = spec
    d = fresh_dir()
    path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
    config.set(level=0)
    h = file_writer(path, rotation='5 b >> %s' % arch, formatter=lambda item: item['message'] + '\n')
    config.add_handlers(h)
    for i in range(n):
        log('line%04d' % i)
        c.op()
    a = files.archives(arch)
    c.eq(len(a), n - 1, 'number of archives')
    c.eq(sorted(a.values()), ['line%04d\n' % i for i in range(n - 1)], 'contents of the archives')
    c.eq(files.read(path), 'line%04d\n' % (n - 1), 'the file')


C18 = [(3, 0), (40, 0), (300, 0)]


def c26(c, spec):
    """Thousands of calls, each with its own data."""
    pool, n = spec
    seen = []
    config.set(level=0, pool_size=pool)
    config.add_handlers(handler(lambda i: seen.append((i['input_variables'], i.get('result'), i.get('exception_message')))))

    @log
    def f(i):
        if i % 3 == 0:
            raise ValueError(str(i))
        return i * 2
    for i in range(n):
        try:
            f(i)
        except ValueError:
            pass
        c.op()
    flush()
    c.eq(len(seen), n, 'records')
    import json
    for i, (a, r, e) in enumerate(sorted(seen, key=lambda x: json.loads(x[0])['args'][0]['value'])):
        if json.loads(a)['args'][0]['value'] != i or (e != str(i) if i % 3 == 0 else json.loads(r)['value'] != i * 2):
            c.bad('record %d: %r', i, (a, r, e))
            break


C26 = [(0, 1500), (2, 1500)]


def c27(c, spec):
    """Hundreds of results held at once and released in several orders."""
    n, order = spec
    seen = []
    config.set(level=0)
    config.add_handlers(handler(lambda i: seen.append(i['message'])))
    held = [log('m%d' % i) for i in range(n)]
    c.op(n)
    c.eq(seen, [], 'records while the results are held')
    which = list(range(n))
    if order == 'reverse':
        which.reverse()
    elif order == 'odd':
        which = which[1::2] + which[::2]
    for i in which:
        held[i] = None
    c.eq(seen, ['m%d' % i for i in which], 'records')


C27 = [(500, 'forward'), (500, 'reverse'), (500, 'odd')]


def run(ctx, prop):
    g = globals()
    ctx.cases('volume', g[prop.upper()], g[prop.lower()], timeout=120)
