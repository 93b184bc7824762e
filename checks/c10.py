"""C10: the logging ban covers exactly the dynamic extent of the banned call."""
import contextvars
import itertools

from polog import config, log, message, unlog

from checks import volume
from checks.common import P, Program, handler, interleavings, run_tasks, thread
from mc.sched import calm

# A program is a tree of calls. kind: how the callable is decorated; flag: 0 normal, 1 raises at its end, 2 does not catch what its child raises
KINDS = ('plain', 'auto', 'ban', 'full', 'off', 'class-ban', 'block', 'neg')
FLAGS = (0, 1, 2)


class Boom(Exception):
    pass


def build(tree, path, coro):
    """-> callable without arguments that runs the tree; every node logs manually before, between and after its children."""
    kind, flag, children = tree
    subs = [build(ch, path + (i,), coro) for i, ch in enumerate(children)]
    name = '.'.join(map(str, path))

    def mark(what):
        log('%s %s' % (name, what))
    if coro:
        async def work(*a):
            mark('in')
            for i, sub in enumerate(subs):
                if flag == 2:
                    await sub()
                else:
                    try:
                        await sub()
                    except Boom:
                        pass
                mark('after%d' % i)
            if flag == 1:
                raise Boom
        if kind == 'block':
            inner = work

            async def work(*a):
                with log('%s block' % name):
                    await inner()
    else:
        def work(*a):
            mark('in')
            for i, sub in enumerate(subs):
                if flag == 2:
                    sub()
                else:
                    try:
                        sub()
                    except Boom:
                        pass
                mark('after%d' % i)
            if flag == 1:
                raise Boom
        if kind == 'block':
            inner = work

            def work(*a):
                with log('%s block' % name):
                    inner()
    if kind in ('plain', 'block'):
        return work
    if kind == 'auto':
        return log('%s auto' % name)(work)
    if kind == 'ban':
        return unlog(work)
    if kind == 'neg':
        return (-log)(log('%s never' % name)(work))
    if kind == 'full':
        return log('%s never' % name)(unlog(full=True)(work))
    if kind == 'off':
        return unlog(full=False)(work)
    if kind == 'class-ban':
        class K:
            pass
        K.m = work
        return unlog(K)().m


class Model:
    def __init__(self, full_unlog):
        self.full = full_unlog
        self.out = []
        self.stack = []

    def banned(self):
        return any(self.full if x is None else x for x in self.stack)

    def log(self, text):
        if not self.banned():
            self.out.append(text)

    def run(self, tree, path):
        """-> True if an exception leaves the node"""
        kind, flag, children = tree
        name = '.'.join(map(str, path))
        ban = {'ban': None, 'neg': None, 'full': True, 'off': False, 'class-ban': None}
        if kind in ban:
            self.stack.append(ban[kind])
        raised = False
        self.log('%s in' % name)
        for i, ch in enumerate(children):
            r = self.run(ch, path + (i,))
            if r and flag == 2:
                raised = True
                break
            self.log('%s after%d' % (name, i))
        if flag == 1 and not raised:
            raised = True
        if kind in ban:
            self.stack.pop()
        if kind in ('auto', 'block'):
            self.log('%s %s' % (name, kind))
        return raised


def drive(aw):
    try:
        while True:
            aw.send(None)
    except StopIteration as e:
        return e.value


def case(c, spec):
    tree, coro, full = spec
    out = []
    config.set(full_unlog=full, deduplicate_errors=False)
    config.add_handlers(handler(lambda i: out.append(i['message'])))
    f = build(tree, (0,), coro)
    m = Model(full)
    for n in range(2):
        try:
            drive(f()) if coro else f()
        except Boom:
            pass
        log('between')
        m.run(tree, (0,))
        m.log('between')
    c.op(len(m.out))
    c.state(tuple(m.out))
    c.eq(out, m.out, 'records of the program %s' % (tree,))


def chains(n, kinds=KINDS, flags=FLAGS):
    if n == 0:
        yield ()
        return
    for kind in kinds:
        for flag in flags:
            if n == 1 and flag == 2:
                continue
            for rest in chains(n - 1, kinds, flags):
                yield ((kind, flag, rest),)


def bushes(kinds, flags):
    leaves = [(k, f, ()) for k in kinds for f in flags if f != 2]
    for k in kinds:
        for f in flags:
            for a in leaves:
                for b in leaves:
                    yield (k, f, (a, b))
                    if k != 'plain':
                        yield ('plain', 0, ((k, f, (a,)), b))


# -- every way of logging is silenced --------------------------------------------------------------------------
def ways(c, spec):
    import logging
    from polog import ass, handle_log
    way, full, setting, level_named = spec
    out = []
    config.levels(aaa=5)
    config.set(full_unlog=setting, debug_mode=False)
    config.add_handlers(handler(lambda i: out.append(1)))

    class D:
        def m(self):
            pass
    D = log(D)
    g = log(lambda: 1)

    def failing():
        raise ValueError
    failing = log(failing)

    def use():
        if way == 'log':
            log('x')
        elif way == 'named':
            log.aaa('x')
        elif way == 'handle':
            handle_log('x')
        elif way == 'handle-named':
            handle_log.aaa('x')
        elif way == 'exception':
            log('x', exception=ValueError())
        elif way == 'block':
            with log('x'):
                pass
        elif way == 'bare-block':
            with log:
                pass
        elif way == 'named-block':
            with log.aaa:
                pass
        elif way == 'failing-block':
            with log('x').suppress():
                raise ValueError
        elif way == 'deco':
            g()
        elif way == 'fail':
            try:
                failing()
            except ValueError:
                pass
        elif way == 'class':
            D().m()
        elif way == 'assert':
            ass(False, 'x')
        elif way == 'logging':
            logging.error('x')
        elif way == 'late':
            log('m', level=3)(lambda: 1)()
    kw = {} if full is None else {'full': full}
    banned = unlog(**kw)(use)
    c.op()
    use()
    c.eq(len(out), 1, 'records before the ban')
    banned()
    silent = setting if full is None else full
    c.eq(len(out), 1 if silent else 2, 'records after the banned call')
    use()
    c.eq(len(out), 2 if silent else 3, 'records after the ban ended')
    out.clear()
    # a banned wrapper around a frame that logs after the banned call returned

    @log('outer')
    def outer():
        banned()
        use()
    outer()
    c.eq(len(out), 2 + (not silent), 'records of a logged call that makes a banned one')
    out.clear()
    config.set(full_unlog=not setting)
    banned()
    silent = (not setting) if full is None else full
    c.eq(len(out), 0 if silent else 1, 'records of the banned call after the setting was changed')


# -- classes -------------------------------------------------------------------------------------------------------
def make():
    class Parent:
        def inherited(self):
            log('inherited')

        @staticmethod
        def inherited_static():
            log('inherited_static')

    class Big(Parent):
        def plain(self):
            log('plain')

        async def coroutine(self):
            log('coroutine')

        @staticmethod
        def static():
            log('static')

        @classmethod
        def of_class(cls):
            log('of_class')

        @staticmethod
        async def static_coroutine():
            log('static_coroutine')

        @classmethod
        async def class_coroutine(cls):
            log('class_coroutine')

        def _protected(self):
            log('_protected')

        def __private(self):
            log('_Big__private')

        def __call__(self):
            log('__call__')

        @property
        def prop(self):
            log('prop')

        def outer(self):
            self.inner()
            log('outer')

        def inner(self):
            log('inner')
    return Parent, Big


METHODS = ('inherited', 'inherited_static', 'plain', 'coroutine', 'static', 'of_class', 'static_coroutine', 'class_coroutine', '_protected', '_Big__private')
BANS = {'unlog': (lambda C: unlog(C), None), 'called': (lambda C: unlog()(C), None), 'neg': (lambda C: (-log)(C), None), 'full': (lambda C: unlog(full=True)(C), True), 'off': (lambda C: unlog(full=False)(C), False)}


def classes(c, spec):
    """Every method of a banned class is silent, whatever its kind; its parent, another class and the class's dunder methods and properties are not."""
    ban, first, later, setting, subclass = spec
    out = []
    config.set(full_unlog=setting, debug_mode=False)
    config.add_handlers(handler(lambda i: out.append(i['message'])))
    Parent, C = make()
    if first:
        log('auto')(C)
    fn, full = BANS[ban]
    if fn(C) is not C:
        c.bad('the decorator returned another class')
    if later:
        log('auto')(C)
    silent = setting if full is None else full
    K = type('Sub', (C,), {}) if subclass else C
    o = K()
    for n in METHODS + ('outer',):
        del out[:]
        c.op()
        r = getattr(o, n)()
        if hasattr(r, 'cr_await'):
            drive(r)
        inside = ['inner', 'outer'] if n == 'outer' else [n]
        # Inherited methods are not forbidden for good: a decorator applied later logs them.
        got = [m for m in out if m != 'auto']
        c.eq(got, [] if silent else inside, 'manual records of %s' % n)
        if not later and 'auto' in out:
            c.bad('the call of the banned method %s was logged', n)
        if later and not n.startswith('inherited') and 'auto' in out:
            c.bad('the call of the banned method %s was logged', n)
    for n in ('__call__', 'prop'):
        del out[:]
        o() if n == '__call__' else o.prop
        c.eq(out, [n], 'records of %s' % n)
    p = Parent()
    for n in ('inherited', 'inherited_static'):
        del out[:]
        getattr(p, n)()
        c.eq(out, [n], 'records of %s of the parent' % n)
    del out[:]
    log('after')
    c.eq(out, ['after'], 'records after the banned calls')
    c.state(spec)


# -- tasks ---------------------------------------------------------------------------------------------------------
def task_body(prog, name):
    """prog: string of actions: s step, l log, ( enter a banned call, ) leave it, [ ] banned with full=False, ! leave by an exception, d decorated call"""
    def parse(i):
        out = []
        while i < len(prog):
            ch = prog[i]
            if ch in '([':
                inner, i = parse(i + 1)
                out.append((ch, inner, prog[i - 1]))
                continue
            if ch in ')]!':
                return out, i + 1
            out.append(ch)
            i += 1
        return out, i
    tree, _ = parse(0)
    logged = []

    async def run(nodes, step, banned):
        for n in nodes:
            if n == 's':
                await step()
            elif n == 'l':
                log(name)
                if not banned:
                    logged.append(name)
            elif n == 'd':
                async def call():
                    await step()
                await log(name + 'd')(call)()
                if not banned:
                    logged.append(name + 'd')
            else:
                ch, inner, end = n

                async def body():
                    await run(inner, step, banned or ch == '(')
                    if end == '!':
                        raise Boom
                try:
                    await (unlog(full=True) if ch == '(' else unlog(full=False))(body)()
                except Boom:
                    pass

    async def go(step):
        await run(tree, step, False)
    return go, logged


def steps(prog):
    return 1 + prog.count('s') + prog.count('d')


PROGS = ('lsl', 'l(sls)l', '(ls(s)ls)l', '(sl!sl', '[(s)l]sl', 'd(d)l', '((s)s!lsl')


def tasks(c, spec):
    progs, order, nested = spec
    out = []
    config.add_handlers(handler(lambda i: out.append(i['message'])))
    bodies = []
    want = []
    for i, p in enumerate(progs):
        b, l = task_body(p, 'abc'[i])
        bodies.append(b)
        want.append(l)

    async def parent(start, settle):
        # the tasks are created by a task that makes banned calls of its own meanwhile
        @unlog
        async def silent():
            await settle()
            log('never')
        start()
        await silent()
    res = run_tasks(bodies, order, parent if nested else None, nested == 'inside')
    c.op(len(order))
    for r in res:
        if isinstance(r, BaseException):
            c.bad('a task failed: %r', r)
    for i in range(len(progs)):
        got = [x for x in out if x.startswith('abc'[i])]
        c.eq(got, want[i], 'records of task %d' % i)
    c.eq(len(out), sum(map(len, want)), 'number of records')
    c.state(tuple(out))


class Threads(Program):
    """Threads do not see each other's bans."""

    def __init__(self, kind, other):
        self.kind, self.other = kind, other
        self.name = 'threads-%s-%s' % (kind, other)
        self.trace = (P + 'unlog.py', P + 'loggers', P + 'core/log_item.py')

    def run(self, k):
        with calm():
            out = []
            config.add_handlers(handler(lambda i: out.append(i['message'])))

            @unlog
            def inner():
                log('never')

            @unlog
            def banned():
                log('never')
                inner()
                log('never')

            @log('auto')
            def auto():
                pass

            def first():
                log('before')
                banned()
                log('after')
                auto()

            def second():
                if self.other == 'ban':
                    banned()
                    log('2')
                else:
                    log('2')
                    auto()
        t = thread(second)
        first()
        t.join()
        want = ['before', 'after', 'auto', '2'] + ([] if self.other == 'ban' else ['auto'])
        k.observe(tuple(out))
        k.eq(sorted(out), sorted(want), 'records')


def run(ctx):
    def specs():
        for full in (True, False):
            for n in range(1, ctx.pick(4, 5)):
                for coro in (False, True):
                    if n >= 3 and (coro or not full) and not ctx.thorough:
                        continue
                    for t in chains(n):
                        yield t[0], coro, full
            for t in bushes(KINDS[:6] if not ctx.thorough else KINDS, FLAGS if ctx.thorough else (0, 1)):
                yield t, False, full
    ctx.cases('call trees', specs(), case, managed=False)
    ctx.cases('classes', itertools.product(BANS, (False, True), (False, True), (True, False), (False, True)), classes, managed=False)
    ctx.cases('ways of logging', itertools.product(('log', 'named', 'handle', 'handle-named', 'exception', 'block', 'bare-block', 'named-block', 'failing-block',
                                                    'deco', 'fail', 'class', 'assert', 'logging', 'late'), (None, True, False), (True, False), (0,)), ways, managed=False)

    def task_specs():
        for a, b in itertools.product(PROGS, repeat=2):
            for o in interleavings((steps(a), steps(b))):
                for nested in (False, True, 'inside'):
                    yield (a, b), o, nested
        if ctx.thorough:
            for a, b, d in itertools.combinations_with_replacement(PROGS[:4], 3):
                for o in interleavings((steps(a), steps(b), steps(d))):
                    yield (a, b, d), o, False
    ctx.cases('tasks', task_specs(), tasks, managed=False)
    for kind, other in (('sync', 'ban'), ('sync', 'log')):
        ctx.explore(Threads(kind, other), 1, 2)
    volume.run(ctx, 'C10')
