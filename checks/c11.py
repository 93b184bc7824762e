"""C11: editing a record from inside affects exactly the enclosing logged call."""
import itertools

from polog import config, log, message, unlog

from checks import volume
from checks.common import P, Program, flush, handler, interleavings, run_tasks, thread
from mc.sched import calm

# A node of a call tree: (kind, edits, raises, children). edits: what is set before and after the children.
KINDS = ('auto', 'low', 'plain', 'ban', 'block', 'class', 'twice')


class Boom(Exception):
    pass


EDITS = {
    '': {}, 'm': {'message': 'text'}, 'x': {'x': 1}, 'mx': {'message': 'other', 'x': 2}, 'y': {'y': 'why'}, 'l': {'level': 50}, 'n': {'level': 'aaa'},
    's': {'success': False}, 'S': {'success': True}, 'e': {'exception': 'Name'}, 'E': {'exception': 'object'}, 'c': {'class_': 'Klass'}, 'v': {'vars': 'local'},
    'mod': {'module': 'somewhere'},
}
FIELDS = ('message', 'x', 'y', 'level', 'success', 'exception_type', 'exception_message', 'class', 'local_variables', 'module', 'function', 'auto')


def edit(kw, name, how):
    kw = dict(kw)
    if kw.get('exception') == 'object':
        kw['exception'] = KeyError('from ' + name)
    if 'message' in kw and how != 'named':
        text = kw.pop('message')
        (message if how == 'plain' else log.message)(text + ' ' + name, **kw)
    else:
        if 'message' in kw:
            kw['message'] += ' ' + name
        (log.message if how == 'attr' else message)(**kw)


def edited(target, kw, name):
    """The model of one call of message()."""
    for k, v in kw.items():
        if k == 'message':
            target['message'] = v + ' ' + name
        elif k == 'class_':
            target['class'] = v
        elif k == 'vars':
            target['local_variables'] = v
        elif k == 'level':
            target['level'] = 60 if v == 'aaa' else v
        elif k == 'exception':
            target['exception_type'] = 'Name' if v == 'Name' else 'KeyError'
            if v == 'object':
                target['exception_message'] = str(KeyError('from ' + name))
        else:
            target[k] = v


def build(tree, path, coro, how):
    kind, edits, raises, children = tree
    subs = [build(ch, path + (i,), coro, how) for i, ch in enumerate(children)]
    name = 'n' + '_'.join(map(str, path))
    before, after = EDITS[edits[0]], EDITS[edits[1]]
    if coro:
        async def work(*a):
            if before:
                edit(before, name, how)
            for sub in subs:
                try:
                    await sub()
                except Boom:
                    pass
            if after:
                edit(after, name, how)
            if raises:
                raise Boom('boom')
    else:
        def work(*a):
            if before:
                edit(before, name, how)
            for sub in subs:
                try:
                    sub()
                except Boom:
                    pass
            if after:
                edit(after, name, how)
            if raises:
                raise Boom('boom')
    work.__name__ = name
    work.__qualname__ = name
    if kind == 'auto':
        return log(name)(work)
    if kind == 'twice':
        return log(name)(log('wrong', level=3)(work))
    if kind == 'low':
        return log(name, level=1, errors_level=1)(work)
    if kind == 'ban':
        return unlog(work)
    if kind == 'class':
        class K:
            pass
        setattr(K, name, work)
        return getattr(log(name)(K)(), name)
    if kind == 'block':
        if coro:
            async def blocked(*a):
                with log(name):
                    await work(*a)
        else:
            def blocked(*a):
                with log(name):
                    work(*a)
        return blocked
    return work


class Model:
    def __init__(self):
        self.out = []
        self.scopes = [{}]      # fields of the decorated calls that are running; [0] stands for the outside
        self.bans = 0

    def run(self, tree, path):
        kind, edits, raises, children = tree
        name = 'n' + '_'.join(map(str, path))
        scope = kind in ('auto', 'low', 'class', 'twice')
        if scope:
            self.scopes.append({})
        if kind == 'ban':
            self.bans += 1
        if EDITS[edits[0]]:
            edited(self.scopes[-1], EDITS[edits[0]], name)
        for i, ch in enumerate(children):
            self.run(ch, path + (i,))
        if EDITS[edits[1]]:
            edited(self.scopes[-1], EDITS[edits[1]], name)
        if kind == 'ban':
            self.bans -= 1
        rec = None
        if scope:
            fields = self.scopes.pop()
            if kind != 'low':
                rec = {'message': name, 'success': not raises, 'level': 10 if raises else 9, 'auto': True, 'function': name, 'module': __name__}
                if raises:
                    rec.update(exception_type='Boom', exception_message='boom', local_variables=ANY)
                rec.update(fields)
        elif kind == 'block':
            rec = {'message': name, 'success': not raises, 'level': 10 if raises else 9, 'auto': False}
            if raises:
                rec.update(exception_type='Boom', exception_message='boom')
        if rec is not None and not self.bans:
            self.out.append(rec)


class Any:
    def __eq__(self, other):
        return True

    def __repr__(self):
        return 'ANY'


ANY = Any()


def listen():
    out = []
    config.levels(aaa=60)
    config.set(level=5, default_level=9, default_error_level=10, deduplicate_errors=False)
    config.add_handlers(handler(lambda i: out.append({k: i[k] for k in FIELDS if k in i})))
    return out


def drive(aw):
    try:
        while True:
            aw.send(None)
    except StopIteration as e:
        return e.value


def case(c, spec):
    tree, coro, how, pool = spec
    out = listen()
    if pool:
        config.set(pool_size=pool)
    f = build(tree, (0,), coro, how)
    m = Model()
    for n in range(2):
        if n:
            message('outside', x='outside', y='outside')     # no logged call here: nothing may inherit this
        try:
            drive(f()) if coro else f()
        except Boom:
            pass
        m.run(tree, (0,))
    if pool:
        flush()
    c.op(len(m.out))
    for w in m.out:
        if 'local_variables' not in w:
            for o in out:
                if o.get('message') == w['message']:
                    pass
    got = [{k: v for k, v in o.items()} for o in out]
    want = m.out
    if len(got) != len(want):
        c.bad('%d records instead of %d for %s: %s', len(got), len(want), tree, got)
    for g, w in zip(got, want):
        if g != w and {k: (w[k] == g.get(k)) for k in w} != {k: True for k in w} or set(g) != set(w):
            c.bad('a record of %s is %s instead of %s', tree, g, w)
    c.state(tree)


def trees(ctx):
    es = ['', 'm', 'x', 'mx', 'y']
    one = [(k, (a, b), r, ()) for k in KINDS for a in EDITS for b in EDITS for r in (0, 1) if (k in ('auto', 'class', 'twice') or (a in es and b in es))]
    for t in one:
        for how in ('plain', 'attr', 'named'):
            for coro in (False, True):
                yield t, coro, how, 0
        yield t, False, 'plain', 1
    two = [(k, e, r, ()) for k in KINDS for e in (('', ''), ('mx', ''), ('x', 'y')) for r in (0, 1)]
    for k in KINDS:
        for e in (('', ''), ('mx', ''), ('', 'mx'), ('y', 'x')):
            for r in (0, 1):
                for ch in two:
                    for coro in (False, True):
                        yield (k, e, r, (ch,)), coro, 'plain', 0
    small = [(k, e, r, ()) for k in KINDS for e in (('', ''), ('mx', '')) for r in (0, 1)]
    for k in ('auto', 'plain', 'block') + (('low', 'ban', 'class') if ctx.thorough else ()):
        for e in (('y', ''), ('', 'x')):
            for a in small:
                for b in small:
                    yield (k, e, 0, (a, b)), False, 'plain', 0
                    yield ('auto', e, 0, ((k, ('y', ''), 0, (a,)), b)), False, 'plain', 0
    if ctx.thorough:
        for a in two:
            for k2 in KINDS:
                for e2 in (('', ''), ('mx', ''), ('x', 'y')):
                    for k3 in KINDS:
                        for e3 in (('', 'mx'), ('y', '')):
                            yield (k3, e3, 0, ((k2, e2, 1, (a,)),)), True, 'attr', 0


# -- refused edits -------------------------------------------------------------------------------------------------
def refused(c, spec):
    bad, silent, after = spec
    out = listen()
    config.set(silent_internal_exceptions=silent)
    err = []

    @log('m')
    def f():
        message('text')
        try:
            if bad == 'function':
                message(function='other')
            elif bad == 'level':
                message(level='nosuch')
            elif bad == 'two':
                message('a', 'b')
            elif bad == 'type':
                message(success='yes')
        except Exception as e:
            err.append(e)
        if after:
            message(x=1)
    f()
    c.op()
    if silent:
        c.eq(err, [], 'errors in silent mode')
    else:
        c.eq(len(err), 1, 'number of errors in strict mode')
    want = {'function': 'f', 'level': 9, 'success': True, 'message': 'a' if (bad == 'two' and silent) else 'text'}
    if after:
        want['x'] = 1
    c.eq(len(out), 1, 'number of records')
    c.eq({k: out[0].get(k) for k in want}, want, 'the record')


# -- every field of an automatic record ----------------------------------------------------------------------------
AUTOMATIC = {'message': 'text', 'level': 55, 'success': None, 'class': 'Klass', 'module': 'elsewhere', 'local_variables': 'locals', 'auto': 'edited', 'time': 'then', 'service_name': 'other',
             'input_variables': 'inputs', 'result': 'results', 'time_of_work': 0.5, 'exception_type': 'Kind', 'exception_message': 'words', 'traceback': '["trace"]', 'custom': 'mine'}


def automatic(c, spec):
    names, args, raises, coro, before = spec
    out = []
    config.set(level=0, service_name='service')
    config.add_handlers(handler(lambda i: out.append(dict(i.items()))))
    edits = {n: bool(raises) if n == 'success' else AUTOMATIC[n] for n in names}

    def body(edit):
        if edit:
            for n, v in edits.items():
                message(**{('class_' if n == 'class' else n): v})
        if raises:
            raise Boom('real')
        return 'real'

    if coro:
        @log('m')
        async def f(edit, *a, **k):
            return body(edit)
    else:
        @log('m')
        def f(edit, *a, **k):
            return body(edit)
    for edit in ((False, True, False) if before else (True, False)):
        try:
            r = f(edit, *args[0], **args[1])
            drive(r) if coro else r
        except Boom:
            pass
    c.op(len(out))
    if before:
        c.eq(set(out[0]), set(out[2]), 'fields of the record before and after an edited one')
    got, other = (out[1], out[2]) if before else out
    for n, v in edits.items():
        c.eq(got.get(n), v, 'field %s set inside' % n)
        if n in other and n != 'success':
            c.eq(other[n] == v, False, 'field %s of the next record is the edited one' % n)
    for n in set(got) | set(other):
        if n not in edits and n not in ('time', 'time_of_work', 'input_variables', 'traceback', 'local_variables'):
            c.eq(got.get(n), other.get(n), 'field %s that was not set' % n)
    c.state((names, raises, coro, before))


def automatic_specs(ctx):
    one = [(n,) for n in AUTOMATIC]
    two = list(itertools.combinations(AUTOMATIC, 2))
    rest = [tuple(AUTOMATIC)] + [tuple(x for x in AUTOMATIC if x != n) for n in AUTOMATIC]
    for names in one + two + rest:
        for args in (((), {}), ((1, 'x'), {}), ((), {'k': 2}), ((object(),), {'k': 2})):
            for raises in (0, 1):
                for coro in (False, True):
                    for before in (False, True):
                        yield names, args, raises, coro, before


# -- tasks and threads --------------------------------------------------------------------------------------------
def task_body(prog, name):
    """s: step, m: set own message, x: set a field, c: call a decorated coroutine with a step in it, C: the same with an edit in it"""
    want = []

    async def run(step):
        mine = {}

        @log(name)
        async def outer():
            for ch in prog:
                if ch == 's':
                    await step()
                elif ch == 'm':
                    message('set ' + name)
                    mine['message'] = 'set ' + name
                elif ch == 'x':
                    message(x=name)
                    mine['x'] = name
                elif ch in 'cC':
                    @log(name + 'inner')
                    async def inner():
                        if ch == 'C':
                            message(x=name + 'inner')
                        await step()
                    await inner()
                    w = {'message': name + 'inner'}
                    if ch == 'C':
                        w['x'] = name + 'inner'
                    want.append(w)
                elif ch == '!':
                    raise Boom
        try:
            await outer()
        except Boom:
            pass
        w = {'message': name}
        w.update(mine)
        want.append(w)
    return run, want


PROGS = ('ms', 'xsm', 'sCs', 'mcs', 'xs!', 's')


def steps(p):
    return 1 + p.count('s') + p.count('c') + p.count('C')


def tasks(c, spec):
    progs, order, nested = spec
    out = []
    config.set(deduplicate_errors=False)
    config.add_handlers(handler(lambda i: out.append((i['function'], {k: i[k] for k in ('message', 'x') if k in i}))))
    bodies, want = [], []
    for i, p in enumerate(progs):
        b, w = task_body(p, 'abc'[i])
        bodies.append(b)
        want.append(w)

    async def parent(start, settle):
        @log('parent')
        async def work():
            message(x='parent')
            start()
            await settle()
        await work()
    res = run_tasks(bodies, order, parent if nested else None, nested == 'inside')
    c.op(len(order))
    for r in res:
        if isinstance(r, BaseException):
            c.bad('a task failed: %r', r)
    flat = [w for ws in want for w in ws] + ([{'message': 'parent', 'x': 'parent'}] if nested else [])
    key = lambda d: sorted(d.items())
    c.eq(sorted([o for _, o in out], key=key), sorted(flat, key=key), 'records')
    c.state(tuple(map(repr, out)))


class Threads(Program):
    def __init__(self, nested):
        self.nested = nested
        self.name = 'threads-%s' % ('nested' if nested else 'flat')
        self.trace = (P + 'loggers/handle', P + 'loggers/auto')

    def run(self, k):
        with calm():
            out = []
            config.add_handlers(handler(lambda i: out.append((i['message'], i.get('x')))))

            @log('inner')
            def inner(n):
                message(x='inner' + n)

            @log('outer')
            def outer(n):
                message(x=n)
                if self.nested:
                    inner(n)
                message('text ' + n)
        t = thread(outer, 'a')
        outer('b')
        t.join()
        want = [('text a', 'a'), ('text b', 'b')] + ([('inner', 'innera'), ('inner', 'innerb')] if self.nested else [])
        k.observe(tuple(out))
        k.eq(sorted(out), sorted(want), 'records')


def run(ctx):
    ctx.cases('call trees', trees(ctx), case)
    ctx.cases('automatic fields', automatic_specs(ctx), automatic, managed=False)
    ctx.cases('refused edits', itertools.product(('function', 'level', 'two', 'type'), (True, False), (True, False)), refused, managed=False)

    def task_specs():
        for a, b in itertools.product(PROGS, repeat=2):
            for o in interleavings((steps(a), steps(b))):
                for nested in (False, True, 'inside'):
                    yield (a, b), o, nested
        if ctx.thorough:
            for p in itertools.combinations_with_replacement(PROGS, 3):
                for o in interleavings([steps(x) for x in p]):
                    yield p, o, False
    ctx.cases('tasks', task_specs(), tasks, managed=False)
    for nested in (False, True):
        ctx.explore(Threads(nested), 1, 2)
    volume.run(ctx, 'C11')
