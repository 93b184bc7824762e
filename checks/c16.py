"""C16: concurrent file writing never loses, tears, mixes or repeats a line."""
import gc
import itertools
import os
import struct

from polog import config, file_writer, log

from mc.sched import calm
from checks import files
from checks import volume
from checks.common import P, Program, flush, fresh_dir, thread

FILES = (P + 'handlers', )
WIDE = (P, )


def line(tag, long=False):
    """The text a record must lead to; every line starts with '<' and ends with '>'."""
    return '<%s%s>' % (tag, ('-' + tag * 3000) if long else '')


def formatter(sep):
    def fmt(item):
        return line(item['message'], item['message'].endswith('L')) + sep
    return fmt


def judge(k, parts, want, sep='\n'):
    """The parts (archives and the file) consist of whole lines, each wanted one exactly once."""
    got = []
    for part in parts:
        if part and not part.endswith(sep):
            k.bad('a file ends in the middle of a line: %.80r', part[-80:])
        for one in part.split(sep)[:-1] if sep else []:
            got.append(one)
    want = sorted(line(w, w.endswith('L')) for w in want)
    if sorted(got) != want:
        missing = [w[:20] for w in want if w not in got]
        strange = [g[:60] for g in got if g not in want]
        twice = sorted({g[:20] for g in got if got.count(g) > want.count(g) and g in want})
        k.bad('lines: missing %r, broken %r, repeated %r', missing, strange, twice)
    return len(got)


class Writers(Program):
    """Threads log at once through one handler or several handlers of one path."""
    exclude = (P + 'tests', )

    def __init__(self, name, records, rotation=None, lock='thread', handlers=1, pool=0, forced=True, sep='\n', trace=FILES, watch=False, fileobj=False, per=1, std=False, warm=True):
        self.name, self.records, self.rotation, self.lock, self.handlers = name, records, rotation, lock, handlers
        self.pool, self.forced, self.sep, self.trace, self.watch, self.fileobj, self.std, self.warm = pool, forced, sep, trace, watch, fileobj, std, warm

    def run(self, k):
        with calm():
            d = fresh_dir()
            path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
            if self.watch:
                files.Watch(d).install()
            hs = []
            obj = files.Slow() if self.fileobj else None
            for i in range(self.handlers):
                options = dict(lock_type=self.lock, forced_flush=self.forced, separator=self.sep)
                if not self.std:
                    options['formatter'] = formatter(self.sep)
                if self.rotation:
                    options['rotation'] = '%s >> %s' % (self.rotation, arch)
                if self.handlers > 1:
                    options['filter'] = (lambda i: lambda item: item['message'][0] == 'abc'[i])(i)
                h = file_writer(obj or path, **options)
                hs.append(h)
                config.add_handlers(h)
            if self.pool:
                config.set(pool_size=self.pool)
            if self.warm:
                log('aW' if self.handlers > 1 else 'W')

        def body(tags):
            for t in tags:
                log(t)
        ts = [thread(body, tags) for tags in self.records[1:]]
        body(self.records[0])
        for t in ts:
            t.join()
        with calm():
            if self.pool:
                flush()
            if not self.forced and not self.fileobj:
                config.delete_handlers(*hs)
                h = hs = None
                gc.collect()
        want = [x for r in self.records for x in r] + (['aW' if self.handlers > 1 else 'W'] if self.warm else [])
        if self.fileobj:
            parts = [obj.text]
            k.eq(obj.overlaps, [], 'uses of the file object at the same time')
        else:
            parts = files.union(path, arch)
        if self.std:
            text = ''.join(parts)
            for w in want:
                if text.count('"%s"' % w) != 1:
                    k.bad('the message %r appears %d times', w, text.count('"%s"' % w))
            if text.count(self.sep) != len(want):
                k.bad('%d lines instead of %d', text.count(self.sep), len(want))
            if not self.fileobj and sum(1 for p in parts if p and not p.endswith(self.sep)):
                k.bad('a file ends in the middle of a line')
        else:
            judge(k, parts, want, self.sep)
        k.observe(len(parts), [len(p) for p in parts])


def scenarios():
    two = (('x',), ('y',))
    yield Writers('plain', (('x', 'xx'), ('y', 'yy'))), 2, 3
    yield Writers('object', two, fileobj=True), 2, 4
    yield Writers('object-three', two + (('z',),), fileobj=True), 1, 3
    yield Writers('object-std', two, fileobj=True, std=True), 1, 2
    yield Writers('object-nolock-flush', two, fileobj=True, forced=False), 2, 3
    yield Writers('rotation', two, rotation='3 b'), 2, 3
    yield Writers('rotation-two', (('x', 'xx'), ('y', 'yy')), rotation='7 bytes'), 1, 3
    yield Writers('rotation-watch', two, rotation='3 b', watch=True, trace=()), 3, 4
    yield Writers('rotation-unflushed', (('x', 'xx'), ('y',)), rotation='3 b', forced=False), 2, 3
    yield Writers('rotation-three', two + (('z',),), rotation='3 b'), 1, 2
    yield Writers('pool', (('x', 'y', 'z'),), rotation='7 b', pool=2), 1, 2
    yield Writers('pool-object', (('x', 'y', 'z'),), fileobj=True, pool=2, trace=(P + 'handlers', P + 'core/engine')), 1, 2
    yield Writers('combined', two, rotation='3 b', lock='thread+file'), 1, 2
    yield Writers('combined-long', (('xL',), ('y', 'yL')), lock='thread + file'), 1, 2
    yield Writers('handlers', (('a', 'aa'), ('b', 'bb')), handlers=2, lock='thread+file', trace=(P + 'handlers/file', )), 2, 3
    yield Writers('handlers-file', (('a', 'aL'), ('b', 'bL')), handlers=2, lock='file'), 1, 2
    yield Writers('handlers-rotation', (('a',), ('b', 'bb')), handlers=2, lock='file+thread', rotation='3 b', trace=(P + 'handlers/file', )), 1, 2
    yield Writers('handlers-rotation-file', (('a',), ('b', 'bb')), handlers=2, lock='file', rotation='7 b'), 1, 2
    yield Writers('handlers-unflushed', (('a', 'aa'), ('b',)), handlers=2, lock='file+thread', rotation='7 b', forced=False), 1, 2
    yield Writers('handlers-watch', (('a',), ('b',)), handlers=2, lock='file+thread', rotation='3 b', watch=True, trace=()), 3, 4
    yield Writers('handlers-three-threads', (('a',), ('b',), ('aa',)), handlers=2, lock='file+thread', rotation='3 b'), 1, 2
    yield Writers('separator', (('x', 'xx'), ('y',)), sep='|', rotation='4 b'), 1, 2
    yield Writers('standard', two, std=True, rotation='100 b'), 1, 2
    yield Writers('standard-first', two, std=True, warm=False), 1, 2
    yield Writers('first', two, rotation='3 b', lock='thread+file', warm=False), 1, 2
    yield Writers('pool-first', (('x', 'y'),), std=True, warm=False, pool=2), 1, 2
    yield Writers('wide', two, rotation='3 b', trace=WIDE), 1, 2
    yield Writers('wide-first', two, std=True, warm=False, trace=WIDE), 1, 1


# -- several processes ------------------------------------------------------------------------------------------------
def processes(c, spec):
    """Real processes with a handler of one path each take turns in every order; some are forked with a live handler."""
    lock, limit, forked, forced, order = spec
    d = fresh_dir()
    path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
    n = max(order) + 1

    def make():
        options = dict(rotation='%s >> %s' % (limit, arch)) if limit else {}
        return file_writer(path, lock_type=lock, forced_flush=forced, formatter=formatter('\n'), **options)
    shared = None
    if forked:
        shared = make()
        config.add_handlers(shared)
        if forked == 'used':
            log('0W')
    pipes = []
    for i in range(n):
        r, w = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                if not forked:
                    config.add_handlers(make())
                os.write(w2, b'!')
                while True:
                    b = os.read(r, 4)
                    if len(b) < 4:
                        break
                    t = struct.unpack('<I', b)[0]
                    if t == 0xffffffff:
                        break
                    log('%d%s%s' % (i, 'w' * t, 'L' if t == 2 else ''))
                    os.write(w2, b'.')
            except BaseException:    # noqa
                code = 1
            os._exit(code)
        os.close(r)
        os.close(w2)
        pipes.append((pid, w, r2))
        os.read(r2, 1)
    want = ['0W'] if forked == 'used' else []
    for t, i in enumerate(order):
        pid, w, r2 = pipes[i]
        os.write(w, struct.pack('<I', t))
        if os.read(r2, 1) != b'.':
            c.bad('a process failed while logging')
        want.append('%d%s%s' % (i, 'w' * t, 'L' if t == 2 else ''))
        c.op()
    for pid, w, r2 in pipes:
        os.write(w, struct.pack('<I', 0xffffffff))
        _, st = os.waitpid(pid, 0)
        if st:
            c.bad('a process ended with status %r', st)
    parts = files.union(path, arch)
    judge(c, parts, want)
    c.state(lock, limit, forked, order, len(parts))


def process_cases(thorough):
    for lock in ('file', 'thread+file'):
        for limit in (None, '3 b', '8 b'):
            for forked in (None, 'fresh', 'used'):
                for forced in (True, False):
                    for order in itertools.product((0, 1), repeat=5 if thorough else 4):
                        yield (lock, limit, forked, forced, order)
                    if thorough:
                        for order in itertools.product((0, 1, 2), repeat=4):
                            yield (lock, limit, forked, forced, order)


# -- one writer ---------------------------------------------------------------------------------------------------------
def sequence(c, spec):
    """Every sequence of records (plain, long, non-ASCII, several lines of text) through every kind of handler."""
    lock, limit, forced, obj, ops = spec
    d = fresh_dir()
    path, arch = os.path.join(d, 'f.log'), os.path.join(d, 'arch')
    options = dict(rotation='%s >> %s' % (limit, arch)) if limit and not obj else {}
    target = files.Slow() if obj == 'slow' else open(path, 'a', encoding='utf-8') if obj else path
    texts = {'p': 'plain', 'L': 'long' * 3000, 'u': 'Привет, \U0001f600 \x7f', 'e': '', '%': '%s {0} \\n'}
    h = file_writer(target, lock_type=lock, forced_flush=forced, formatter=lambda item: '<%s>\n' % item['message'], **options)
    config.add_handlers(h)
    want = []
    for n, op in enumerate(ops):
        text = '%d%s' % (n, texts[op])
        log(text)
        want.append('<%s>' % text)
        c.op()
    if obj == 'file':
        target.close()
    config.delete_handlers(h)
    h = None
    gc.collect()
    parts = [target.text] if obj == 'slow' else files.union(path, arch)
    got = [x for p in parts for x in p.split('\n')[:-1]]
    c.eq(sorted(got), sorted(want), 'lines')
    if not limit:
        c.eq(got, want, 'order of the lines')
    for p in parts:
        mine = [x for x in p.split('\n')[:-1]]
        if mine != [w for w in want if w in mine]:
            c.bad('lines of one file are out of order: %.200r', mine)
        if p and not p.endswith('\n'):
            c.bad('a file ends in the middle of a line')
    c.state(lock, limit, forced, obj, ops)


def sequence_cases(thorough):
    for lock in (None, 'thread', 'file', 'thread+file'):
        for limit, obj in ((None, None), ('1 b', None), ('20 b', None), ('1 kb', None), (None, 'file'), (None, 'slow')):
            for forced in (True, False):
                for ops in itertools.product('pLue%', repeat=4 if thorough else 3):
                    yield (lock, limit, forced, obj, ops)


def run(ctx):
    ctx.cases('one-writer', sequence_cases(ctx.thorough), sequence, managed=False, batch=5)
    ctx.cases('processes', process_cases(ctx.thorough), processes, managed=False)
    for scn, q, t in scenarios():
        ctx.explore(scn, q, t)
    volume.run(ctx, 'C16')
