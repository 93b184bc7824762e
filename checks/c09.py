"""C09: stacked decorators act as one, and the right one wins."""
import gc
import itertools

from polog import config, log, unlog

from checks import volume
from checks.common import P, Program, handler, thread
from mc.sched import calm

OUT = []


def listen():
    OUT.clear()
    config.add_handlers(handler(lambda i: OUT.append((i['message'], i['level'], i['auto']))))


def drive(aw):
    if hasattr(aw, 'send') and hasattr(aw, 'close'):
        try:
            while True:
                aw.send(None)
        except StopIteration as e:
            return e.value
    return aw


def call(c, f, args, want, what):
    OUT.clear()
    c.op()
    got = drive(f(*args))
    if got != 'result':
        c.bad('%s returned %r', what, got)
    c.eq(OUT[:], [want] if want is not None else [], 'records of %s' % what)
    OUT.clear()


def deco(kind, i):
    """-> decorator"""
    if kind == 'log':
        return log('d%d' % i, level=i + 1)
    if kind == 'ban':
        return unlog
    if kind == 'banoff':
        return unlog(full=False)
    if kind == 'neg':
        return -log


# -- A: functions ---------------------------------------------------------------------------------------------
def functions(c, spec):
    stack, coro = spec
    listen()
    if coro:
        async def f(*a):
            return 'result'
    else:
        def f(*a):
            return 'result'
    want = None
    for i, kind in enumerate(stack):
        f = deco(kind, i)(f)
    if all(k == 'log' for k in stack) and stack:
        want = ('d%d' % (len(stack) - 1), len(stack), True)
    c.state(stack, coro)
    call(c, f, (1,), want, 'a function decorated with %s' % (stack,))
    call(c, f, (), want, 'a function decorated with %s, second call' % (stack,))


# -- B: classes -----------------------------------------------------------------------------------------------
def body(kind):
    if kind == 'coro':
        async def m(*a):
            return 'result'
        return m

    def m(*a):
        return 'result'
    return m


def wrap(kind, f):
    return {'static': staticmethod, 'classm': classmethod}.get(kind, lambda x: x)(f)


CLASSD = ('log', 'only-m', 'only-n', 'ban', 'banoff')


def class_deco(kind, i):
    if kind == 'log':
        return log('c%d' % i, level=100 + i)
    if kind == 'only-m':
        return log('c%d' % i, level=100 + i, methods=('m',))
    if kind == 'only-n':
        return log('c%d' % i, level=100 + i, methods=('n',))
    return deco(kind, i)


class Slot:
    """What is known about one method of one class: the model."""

    def __init__(self, own=None, banned=False, cls=None):
        self.own, self.banned, self.cls = own, banned, cls
        self.forbidden = [banned]       # of the function itself, shared by all its versions

    def copy(self):
        s = Slot(self.own, self.banned, self.cls)
        s.forbidden = self.forbidden
        return s

    def want(self):
        if self.banned:
            return None
        return self.own or self.cls


def method_stack(slot, stack, i0=0):
    for i, kind in enumerate(stack):
        if kind == 'log':
            slot.own = ('d%d' % (i0 + i), i0 + i + 1, True)
        else:
            slot.banned = slot.forbidden[0] = True


def apply_class(slots, kind, i, inherited=False):
    for name, s in slots.items():
        if kind in ('ban', 'banoff'):
            s.banned = True
            if not inherited:
                s.forbidden[0] = True
        elif kind == 'log' or kind == 'only-' + name:
            if s.forbidden[0]:
                s.banned = True
            s.cls = ('c%d' % i, 100 + i, True)
        else:
            s.cls = None


def classes(c, spec):
    mstack, nstack, cstack, kind, coro = spec
    listen()
    slots = {'m': Slot(), 'n': Slot()}
    m, n = body(kind), body(kind)
    for i, k in enumerate(mstack):
        m = deco(k, i)(m)
    for i, k in enumerate(nstack):
        n = deco(k, i)(n)
    method_stack(slots['m'], mstack)
    method_stack(slots['n'], nstack)

    class A:
        pass
    A.m, A.n = wrap(kind, m), wrap(kind, n)
    for i, k in enumerate(cstack):
        A = class_deco(k, i)(A)
        apply_class(slots, k, i)
    for inst in (A(), A()) + ((A,) if kind in ('static', 'classm') else ()):
        for name in 'mn':
            call(c, getattr(inst, name), (), slots[name].want(), 'method %s (%s), decorated with %s, class decorated with %s' %
                 (name, kind, mstack if name == 'm' else nstack, cstack))
    c.state(spec)


# -- C: inheritance -------------------------------------------------------------------------------------------
def inheritance(c, spec):
    mstack, override, order, kind, parent, child, grand = spec
    listen()
    pslots, cslots = {'m': Slot(), 'n': Slot()}, None
    m = body(kind)
    for i, k in enumerate(mstack):
        m = deco(k, i)(m)
    method_stack(pslots['m'], mstack)

    class Parent:
        pass
    Parent.m, Parent.n = wrap(kind, m), wrap(kind, body(kind))

    class Child(Parent):
        pass
    if override:
        f = body(kind)
        if override == 'log':
            f = deco('log', 7)(f)
        elif override == 'ban':
            f = deco('ban', 7)(f)
        Child.m = wrap(kind, f)

    class Grand(Child):
        pass
    # Which class owns its own version of a method, and what is known about it: lookups follow the real inheritance.
    own = {'P': dict(pslots), 'C': {}, 'G': {}}
    if override:
        own['C']['m'] = Slot()
        method_stack(own['C']['m'], () if override == 'yes' else (override,), 7)
    mro = {'P': 'P', 'C': 'CP', 'G': 'GCP'}

    def find(cls, name):
        for k in mro[cls]:
            if name in own[k]:
                return own[k][name], k

    def decorate(which, kinds):
        cls = {'P': Parent, 'C': Child, 'G': Grand}[which]
        for i, k in enumerate(kinds):
            i += {'P': 0, 'C': 10, 'G': 20}[which]
            class_deco(k, i)(cls)
            for name in 'mn':
                s, owner = find(which, name)
                if k.startswith('only') and k != 'only-' + name and not (s.cls and not s.own and not s.banned):
                    continue        # not chosen, and not logged by a class decorator before: nothing to do
                if owner != which:
                    # the class gets its own version, the parent keeps its one
                    s = s.copy()
                    own[which][name] = s
                apply_class({name: s}, k, i, owner != which)
    for which in order:
        decorate(which, {'P': parent, 'C': child, 'G': grand}[which])
    for which, cls in (('P', Parent), ('C', Child), ('G', Grand)):
        for name in 'mn':
            call(c, getattr(cls(), name), (), find(which, name)[0].want(),
                 '%s.%s (%s; method %s, override %s, parent %s, child %s, grandchild %s, order %s)' % (which, name, kind, mstack, override, parent, child, grand, order))
    c.state(spec)


def supers(c, spec):
    """An overriding method that calls the parent's one is another function: both are logged, once each."""
    pk, ck, kind = spec
    listen()

    class Parent:
        def m(self):
            return 'result'

        def n(self):
            return 'result'

    class Child(Parent):
        def m(self):
            return super().m()
    for k in pk:
        class_deco(k, 0)(Parent)
    for k in ck:
        class_deco(k, 10)(Child)
    p = Slot()
    ch = Slot()
    for k in pk:
        apply_class({'m': p}, k, 0)
    for k in ck:
        apply_class({'m': ch}, k, 10)
    want = [x for x in (p.want(), ch.want()) if x]
    OUT.clear()
    c.op()
    Child().m()
    if ck and 'ban' in ck or 'banoff' in ck:
        # what is below the ban belongs to C10
        c.eq([x for x in OUT if x[0].startswith('c1')], [], 'records of a banned method')
    else:
        c.eq(OUT[:], want, 'records of super() calls')
    OUT.clear()
    Parent().m()
    c.eq(OUT[:], [p.want()] if p.want() else [], 'records of the parent')


# -- D: decorating in any order, again and again ----------------------------------------------------------------
def orders(c, ops):
    listen()

    def f(*a):
        return 'result'

    def g(*a):
        return 'result'
    objs = [(f, None, 0, False), (g, None, 1, False)]          # object, expected record, original, contains a ban
    forbidden = set()
    for i, (which, kind) in enumerate(ops):
        x, want, orig, ban = objs[which]
        y = deco(kind, i)(x)
        if kind == 'log':
            if ban or orig in forbidden:
                objs.append((y, None, orig, True))
            else:
                objs.append((y, ('d%d' % i, i + 1, True), orig, False))
        else:
            forbidden.add(orig)
            objs.append((y, None, orig, True))
    for n, (x, want, orig, ban) in enumerate(objs):
        call(c, x, (), want, 'object %d after %s' % (n, ops))
    c.state(tuple(w for _, w, _, _ in objs))


def order_specs(depth):
    def rec(n, prefix):
        if len(prefix) == depth:
            yield tuple(prefix)
            return
        for which in range(n):
            for kind in ('log', 'ban', 'banoff'):
                yield from rec(n + 1, prefix + [(which, kind)])
    for d in (depth,):
        yield from rec(2, [])


# -- E: objects that do not exist any more do not matter ---------------------------------------------------------
def garbage(c, spec):
    first, second, rounds = spec
    listen()
    for n in range(rounds):
        def f(*a):
            return 'result'
        for i, k in enumerate(first):
            f = deco(k, i)(f)
        if n % 2:
            call(c, f, (), ('d%d' % (len(first) - 1), len(first), True) if set(first) == {'log'} else None, 'round %d' % n)
        del f
        gc.collect()

        def f2(*a):
            return 'result'
        g = f2
        for i, k in enumerate(second):
            g = deco(k, i)(g)
        call(c, g, (), ('d%d' % (len(second) - 1), len(second), True) if set(second) == {'log'} else None, 'a new function in round %d' % n)


class Threads(Program):
    """Two threads decorate the same function and unrelated ones at the same time."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.name = 'threads-%s-%s' % (a, b)
        self.trace = (P + 'core/stores/registering_functions.py', P + 'data_structures/wrappers/weak_linked', P + 'loggers/auto', P + 'unlog.py', )

    def run(self, k):
        with calm():
            listen()

            def f():
                return 'result'

            def own(n):
                def h():
                    return 'result'
                return log('own%d' % n)(h)
        res = {}

        def go(n, kind):
            res[n] = deco(kind, n)(f)
            res[10 + n] = own(n)
        t = thread(go, 0, self.a)
        go(1, self.b)
        t.join()
        with calm():
            seen = {}
            for n in sorted(res):
                OUT.clear()
                res[n]()
                seen[n] = OUT[:]
        k.observe(seen)
        for n in (0, 1):
            k.eq([x[0] for x in seen[10 + n]], ['own%d' % n], 'records of an unrelated function')
            kind = (self.a, self.b)[n]
            if kind != 'log':
                k.eq(seen[n], [], 'records of the banned function')
            else:
                k.check(len(seen[n]) <= 1, 'several records: %s', seen[n])
                if 'ban' not in (self.a, self.b):
                    k.eq(seen[n], [('d%d' % n, n + 1, True)], 'records of the decorated function')


def stacks(kinds, upto, least=0):
    return [s for d in range(least, upto + 1) for s in itertools.product(kinds, repeat=d)]


def run(ctx):
    ctx.cases('functions', itertools.product(stacks(('log', 'ban', 'banoff', 'neg'), ctx.pick(4, 5)), (False, True)), functions, managed=False)
    ms = stacks(('log', 'ban', 'banoff'), ctx.pick(2, 3))
    ctx.cases('classes', ((m, n, cs, kind, 0) for m in ms for n in ((), ('log',)) for cs in stacks(CLASSD, ctx.pick(2, 3)) for kind in ('method', 'static', 'classm', 'coro')),
              classes, managed=False)
    ps = [(), ('log',), ('ban',), ('only-m',), ('only-n',)] + ([('log', 'log'), ('log', 'only-n'), ('ban', 'log')] if ctx.thorough else [])
    orders_ = [''.join(p) for p in itertools.permutations('PCG')]
    if not ctx.thorough:
        orders_ = ['PCG', 'CPG', 'GCP', 'PGC']
    ctx.cases('inheritance', ((m, o, order, kind, p, ch, g) for m in ((), ('log',), ('ban',)) for o in ('', 'yes', 'log', 'ban') for order in orders_
                              for kind in (('method', 'static') if not ctx.thorough else ('method', 'static', 'classm', 'coro')) for p in ps for ch in ps for g in ((), ('log',), ('ban',))),
              inheritance, managed=False)
    ctx.cases('super', itertools.product(stacks(CLASSD, 2), stacks(CLASSD, 2), (0,)), supers, managed=False)
    ctx.cases('orders', order_specs(ctx.pick(4, 5)), orders, managed=False, batch=1)
    ss = [s for s in stacks(('log', 'ban', 'banoff'), 2, 1)]
    ctx.cases('garbage', itertools.product(ss, ss, (3,)), garbage, managed=False)
    for a, b in (('log', 'log'), ('log', 'ban'), ('ban', 'log'), ('ban', 'ban')):
        ctx.explore(Threads(a, b), 1, 2)
    volume.run(ctx, 'C09')
