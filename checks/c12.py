"""C12: a with-block yields one faithful record and suppresses only what was asked."""
import gc
import itertools
import json
import time

from polog import config, log

from checks import volume
from checks.common import P, Program, flush, handler, interleavings, run_tasks, thread
from mc.sched import calm


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class Other(Exception):
    pass


class Base(BaseException):
    pass


class Unprintable(Exception):
    def __str__(self):
        raise ValueError('no')


Twin = type('Boom', (Exception,), {})        # another class of the same name
RAISES = {'': None, 'twin': Twin, 'boom': Boom, 'sub': SubBoom, 'other': Other, 'base': Base, 'unprintable': Unprintable}
SUPPRESS = {'no': None, 'all': (), 'boom': (Boom,), 'sub': (SubBoom,), 'two': (Other, SubBoom), 'exc': (Exception,), 'junk': (KeyboardInterrupt, 5), 'mixed': (5, Boom),
            'chain': ((Boom,), (Other,)), 'chain2': ((Other,), (SubBoom,)), 'chain-all': ((), (Other,)), 'all-chain': ((Other,), ())}      # .suppress(...).suppress(...)
# how the block is entered: (callable that gives the context manager, level it implies, fields it implies)
FORMS = ('log', 'log()', "log('m')", "log(message='m')", 'log.name', "log.name('m')", "log.name('m',level)", "log('m',level)", "log('m',levelname)", "log('m',x)", 'log.name()')


def enter(form, sup):
    """Build the context manager the way the user writes it."""
    s = SUPPRESS[sup]
    cm = {
        'log': lambda: log,
        'log()': lambda: log(),
        "log('m')": lambda: log('m'),
        "log(message='m')": lambda: log(message='m'),
        'log.name': lambda: log.named,
        'log.name()': lambda: log.named(),
        "log.name('m')": lambda: log.named('m'),
        "log.name('m',level)": lambda: log.named('m', level=30),
        "log('m',level)": lambda: log('m', level=30),
        "log('m',levelname)": lambda: log('m', level='named'),
        "log('m',x)": lambda: log('m', x='entry', y='entry'),
    }[form]()
    if 'chain' not in sup:
        return cm if s is None else cm.suppress(*s)
    for one in s:
        cm = cm.suppress(*one)
    return cm


def at_entry(form):
    d = {}
    if "'m'" in form:
        d['message'] = 'm'
    if 'name' in form:
        d['level'] = 20
    if ',level)' in form:
        d['level'] = 30
    if ',x)' in form:
        d.update(x='entry', y='entry')
    return d


INNER = {
    '': [], 'm': [(('new',), {})], 'mm': [((), {'message': 'first'}), ((), {'message': 'second'})], 'x': [((), {'x': 'inner'})], 'l': [((), {'level': 40})],
    'ln': [((), {'level': 'named'})], 'all': [(('new',), {'x': 'inner', 'level': 40}), ((), {'x': 'last'})],
}
NOTED = ('message', 'level', 'x', 'y', 'success', 'exception_type', 'exception_message', 'auto')


def inner_fields(edits):
    d = {}
    for args, kw in INNER[edits]:
        if args:
            d['message'] = args[0]
        d.update(kw)
    if d.get('level') == 'named':
        d['level'] = 20
    return d


def suppressed(exc, sup, default, subclasses):
    """Does the block swallow an exception of this class?"""
    s = SUPPRESS[sup]
    if s == () or 'all' in sup:
        return True
    if 'chain' in sup:
        s = sum(s, ())
    s = s and tuple(k for k in s if isinstance(k, type) and issubclass(k, Exception))
    if not s:
        return default
    return issubclass(exc, s) if subclasses else exc in s


def expect(form, edits, exc):
    d = {'success': exc is None, 'auto': False, 'level': 9 if exc is None else 10}
    if exc is not None:
        d['exception_type'] = exc.__name__
        if exc is not Unprintable:
            d['exception_message'] = 'text'
    d.update(at_entry(form))
    d.update(inner_fields(edits))
    return d


def listen():
    out = []
    config.levels(named=20)
    config.set(level=0, default_level=9, default_error_level=10)
    config.add_handlers(handler(lambda i: out.append(({k: i[k] for k in NOTED if k in i}, i.get('time_of_work'), i.get('time'), i.get('traceback')))))
    return out


def compare(c, got, want, what):
    got = [dict(g) for g in got]
    if len(got) != len(want):
        return c.bad('%s: %d records instead of %d: %s', what, len(got), len(want), got)
    for g, w in zip(got, want):
        if g.get('exception_type') == 'Unprintable':
            g.pop('exception_message', None)
        c.eq(g, w, what)


def single(c, spec):
    form, edits, rs, sup, default, subclasses, pool = spec
    out = listen()
    config.set(suppress_by_default=default, suppress_exception_subclasses=subclasses, silent_internal_exceptions=sup in ('junk', 'mixed'))
    if pool:
        config.set(pool_size=pool)
    exc = RAISES[rs]
    e = exc('text') if exc else None
    start = time.time()
    caught = None
    ran = 0
    try:
        manager = enter(form, sup)
        time.sleep(4)           # a block begins when it is entered
        start = time.time()
        with manager as ctx:
            ran += 1
            time.sleep(2.5)
            for args, kw in INNER[edits]:
                ctx(*args, **kw)
            if e is not None:
                raise e
        ran += 10
    except BaseException as x:
        caught = x
    gc.collect()
    if pool:
        flush()
    c.op()
    what = 'with %s suppress=%s inner=%s raising %s' % (form, sup, edits, rs)
    swallow = e is not None and suppressed(exc, sup, default, subclasses)
    if e is None or swallow:
        c.eq((caught, ran), (None, 11), what + ': what left the block')
    elif caught is not e or ran != 1:
        c.bad('%s: left the block: %r', what, caught)
    compare(c, [o[0] for o in out], [expect(form, edits, exc)], what)
    for _, dur, when, tb in out:
        if dur is None or not 2.5 <= dur <= 3.5:
            c.bad('%s: a block of 2.5 s lasted %r', what, dur)
        if abs(when.timestamp() - start) > 0.5:
            c.bad('%s: started at %s, recorded %s', what, start, when.timestamp())
        if e is not None and not (isinstance(tb, str) and any('raise e' in line for line in json.loads(tb))):
            c.bad('%s: the traceback is %r', what, tb)
        if e is None and tb is not None:
            c.bad('%s: a traceback without an exception: %r', what, tb)
    c.state(spec)


def singles(ctx):
    for form in FORMS:
        for edits in INNER:
            for rs in RAISES:
                for sup in SUPPRESS:
                    for default in (False, True):
                        for sub in (True, False):
                            if RAISES[rs] is Base and ('all' in sup or default):
                                continue         # nobody promised what happens to exceptions that are not errors
                            if (rs == 'twin' or 'chain' in sup or sup in ('junk', 'mixed')) and (edits or rs == 'unprintable'):
                                continue
                            if edits not in ('', 'all') and (default or not sub) and not ctx.thorough:
                                continue
                            yield form, edits, rs, sup, default, sub, 0
    for form in FORMS:
        for edits in ('', 'all'):
            for rs in ('', 'boom'):
                yield form, edits, rs, 'no', False, True, 2


# -- nesting ------------------------------------------------------------------------------------------------------
# a node: (form, suppress, edits before the children, edits after them, raises, children)
def walk(node, path, ctxs):
    form, sup, before, after, rs, children = node
    with enter(form, sup) as ctx:
        ctxs.append(ctx)
        ctx(x=path)
        for args, kw in INNER[before]:
            ctx(*args, **kw)
        for i, ch in enumerate(children):
            walk(ch, path + str(i), ctxs)
        for args, kw in INNER[after]:
            ctx(*args, **kw)
        if RAISES[rs]:
            raise RAISES[rs]('text')


def model(node, path, out, default, subclasses):
    """Returns the class of the exception that leaves the block."""
    form, sup, before, after, rs, children = node
    d = dict(at_entry(form))
    d['x'] = path
    d.update(inner_fields(before))
    exc = None
    for i, ch in enumerate(children):
        exc = model(ch, path + str(i), out, default, subclasses)
        if exc:
            break
    else:
        d.update(inner_fields(after))
        exc = RAISES[rs]
    r = {'success': exc is None, 'auto': False, 'level': 9 if exc is None else 10}
    if exc is not None:
        r.update(exception_type=exc.__name__, exception_message='text')
    r.update(d)
    out.append(r)
    return None if exc is None or suppressed(exc, sup, default, subclasses) else exc


def nested(c, spec):
    node, default, subclasses = spec
    out = listen()
    config.set(suppress_by_default=default, suppress_exception_subclasses=subclasses)
    want = []
    for n in range(2):
        exc = model(node, 'p%d' % n, want, default, subclasses)
        caught = None
        try:
            walk(node, 'p%d' % n, [])
        except (Boom, Other) as e:
            caught = type(e)
        c.eq(caught, exc, 'what left %s' % (node,))
    c.op(len(want))
    compare(c, [o[0] for o in out], want, 'nested %s' % (node,))
    c.state(spec)


def trees(ctx):
    forms = ('log', "log('m')", 'log.name', "log.name('m')", "log('m',x)")
    leaves = [(f, s, '', e, r, ()) for f in forms for s in ('no', 'all', 'boom') for e in ('', 'm') for r in ('', 'boom', 'sub', 'other')]
    for f in forms:
        for s in ('no', 'all', 'boom'):
            for b, a in (('', ''), ('m', ''), ('', 'all')):
                for leaf in leaves:
                    yield (f, s, b, a, '', (leaf,)), False, False
                    if ctx.thorough:
                        yield (f, s, b, a, 'boom', (leaf,)), True, True
    short = [(f, s, '', 'm', r, ()) for f in forms[:4] for s in ('no', 'boom') for r in ('', 'boom')]
    for f in forms[:4]:
        for a in short:
            for b in short:
                yield (f, 'no', 'm', '', '', (a, b)), False, True
                yield (f, 'all', '', 'm', '', ((f, 'no', '', 'm', '', (a,)), b)), False, True


# -- the same manager twice, misuse ------------------------------------------------------------------------------
def reuse(c, spec):
    kind, form, rs = spec
    out = listen()
    what = '%s of %s' % (kind, form)
    want = []
    exc = RAISES[rs]

    def body():
        if exc:
            raise exc('text')
    if kind == 'partial':          # a level attribute kept in a variable
        p = log.named
        for n in range(3):
            try:
                with p as ctx:
                    ctx(x=n)
                    with p as ctx2:
                        ctx2(x=n + 10)
                        body()
            except Boom:
                pass
            for x in (n + 10, n):
                w = expect('log.name', '', exc)
                w['x'] = x
                want.append(w)
    elif kind == 'suppress-partial':
        p = log.suppress(Boom)
        for n in range(3):
            with p as ctx:
                ctx(x=n)
                body()
            w = expect('log', '', exc)
            w['x'] = n
            want.append(w)
    elif kind == 'inside':         # suppression asked from the inside
        with enter(form, 'no') as ctx:
            ctx.suppress(Boom)
            body()
        want.append(expect(form, '', exc))
    elif kind == 'kept':           # the manager lives on after the block
        ctxs = []
        for n in range(2):
            try:
                with enter(form, 'no') as ctx:
                    ctxs.append(ctx)
                    body()
            except Boom:
                pass
            want.append(expect(form, '', exc))
        n = len(out)
        del ctxs, ctx
        gc.collect()
        c.eq(len(out), n, what + ': records written after the blocks ended')
    elif kind == 'settings':       # the settings at the end of the block count
        with enter(form, 'no'):
            config.set(suppress_by_default=True, default_level=77, default_error_level=88)
            body()
        w = expect(form, '', exc)
        if w['level'] in (9, 10):
            w['level'] = 88 if exc else 77
        want.append(w)
    elif kind == 'manual':         # manual records inside do not disturb it
        try:
            with enter(form, 'no') as ctx:
                log('hand', x='hand')
                ctx(x='in')
                body()
        except Boom:
            pass
        want.append({'message': 'hand', 'x': 'hand', 'auto': False, 'level': 9})
        w = expect(form, '', exc)
        w['x'] = 'in'
        want.append(w)
    c.op()
    compare(c, [o[0] for o in out], want, what)


# -- concurrent tasks ----------------------------------------------------------------------------------------------
def task_body(i, form, sup, rs, depth, want):
    name = 'abc'[i]

    async def body(step):
        async def level(d):
            with enter(form, sup) as ctx:
                ctx(x='%s%d' % (name, d))
                await step()
                if d + 1 < depth:
                    await level(d + 1)
                    await step()
                if RAISES[rs] and d + 1 == depth:
                    raise RAISES[rs]('text')
        exc = RAISES[rs]
        for d in reversed(range(depth)):
            w = expect(form, '', exc)
            w['x'] = '%s%d' % (name, d)
            want.append(w)
            if exc and suppressed(exc, sup, False, True):
                exc = None
        try:
            await level(0)
            return None
        except Boom as e:
            return type(e)
    return body


def tasks(c, spec):
    progs, order, parent = spec
    out = listen()
    want = []
    bodies = [task_body(i, *p, want) for i, p in enumerate(progs)]

    async def par(start, settle):
        with log as ctx:
            ctx(x='parent')
            start()
            await settle()
    res = run_tasks(bodies, order, par if parent else None, parent == 'inside')
    if parent:
        w = expect('log', '', None)
        w['x'] = 'parent'
        want.append(w)
    c.op(len(order))
    for p, r in zip(progs, res):
        exc = RAISES[p[2]]
        if isinstance(r, BaseException) or r is not (None if exc is None or suppressed(exc, p[1], False, True) else exc):
            c.bad('the task %s ended with %r', p, r)
    key = lambda d: (str(d.get('x')), repr(sorted(d.items())))
    compare(c, sorted((o[0] for o in out), key=key), sorted(want, key=key), 'tasks %s in order %s' % (progs, order))
    c.state(tuple(o[0].get('x') for o in out))


def task_specs(ctx):
    progs = [(f, s, r, d) for f in ('log', 'log.name', "log('m')") for s, r in (('no', ''), ('no', 'boom'), ('boom', 'boom')) for d in (1, 2)]
    for a, b in itertools.product(progs, repeat=2):
        if a[3] == b[3] == 2 and not ctx.thorough and (a[0], b[0]) != ('log', 'log'):
            continue
        for o in interleavings([2 * a[3], 2 * b[3]]):
            for parent in (False, True, 'inside'):
                yield (a, b), o, parent
    if ctx.thorough:
        three = [p for p in progs if p[3] == 1]
        for ps in itertools.combinations_with_replacement(three, 3):
            for o in interleavings([2, 2, 2]):
                yield ps, o, True


# -- threads -------------------------------------------------------------------------------------------------------
class Threads(Program):
    def __init__(self, form, depth, bound_trace):
        self.form, self.depth = form, depth
        self.name = 'threads-%s-%d' % (form, depth)
        self.trace = bound_trace

    def run(self, k):
        with calm():
            config.levels(named=20)
            config.set(level=0, default_level=9, default_error_level=10)
            out = []
            config.add_handlers(handler(lambda i: out.append((i.get('message'), i.get('x'), i['level'], i['success'], i.get('exception_type')))))
            shared = log.named

        def body(name, exc):
            def level(d):
                cm = shared if self.form == 'shared' else enter(self.form, 'no')
                with cm as ctx:
                    ctx(x='%s%d' % (name, d))
                    if d + 1 < self.depth:
                        level(d + 1)
                    elif exc:
                        raise Boom('text')
            try:
                level(0)
                ends.append((name, None))
            except Boom:
                ends.append((name, Boom))
        ends = []
        t = thread(body, 'a', None)
        body('b', Boom)
        t.join()
        k.observe(tuple(out))
        named = self.form == 'shared' or 'name' in self.form
        msg = 'm' if "'m'" in self.form else None
        want = [(msg, 'a%d' % d, 20 if named else 9, True, None) for d in range(self.depth)] + [(msg, 'b%d' % d, 20 if named else 10, False, 'Boom') for d in range(self.depth)]
        k.eq(sorted(out, key=repr), sorted(want, key=repr), 'records')
        k.eq(sorted(ends, key=repr), sorted([('a', None), ('b', Boom)], key=repr), 'how the threads ended')


def run(ctx):
    ctx.cases('single blocks', singles(ctx), single)
    ctx.cases('nested blocks', trees(ctx), nested, managed=False)
    ctx.cases('reuse', itertools.product(('partial', 'suppress-partial', 'inside', 'kept', 'settings', 'manual'), FORMS, ('', 'boom')), reuse, managed=False)
    ctx.cases('tasks', task_specs(ctx), tasks, managed=False)
    wide, narrow = (P, ), (P + 'loggers/router', P + 'loggers/partial', P + 'loggers/finalizer')
    for form in ('log', 'log.name', 'shared', "log('m')"):
        ctx.explore(Threads(form, 1, narrow), ctx.pick(2, 2) if form in ('log', 'shared') else 1, 2)
        ctx.explore(Threads(form, 2, wide), 1, 2 if form == 'log' else 1)
    volume.run(ctx, 'C12')
