"""C14: the handler registry behaves like a name tree, and namespaces follow it live."""
import itertools

from polog import config, log

from checks import volume
from checks.common import P, Program, handler, thread
from mc.sched import calm

PATHS = ('a', 'a.b', 'a.b.c', 'b')
OBJECTS = (0, 1, 2)
BAD_PATHS = ('', '.a', 'a.', 'a..b', '1', 'a b', 'a.1', 'a-b')


class Falsy:
    """A callable object that looks empty and equal to the other handlers."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        self.fn(item)

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Falsy) or callable(other) and getattr(other, '__name__', '') == 'h'

    __hash__ = object.__hash__


class World:
    def __init__(self):
        self.hits = hits = []

        def make(name, cls=handler):
            return cls(lambda item: hits.append(name))
        self.objects = [make(0), make(1, Falsy), make(2)]
        self.x = make('x')
        self.y = make('y')
        self.map = {}            # path -> number of the object
        self.anonymous = []      # numbers of objects without a known path
        self.decorated = []      # (description, function, visible(map))

    def under(self, *roots):
        return [o for p, o in self.map.items() if any(p == r or p.startswith(r + '.') for r in roots)]

    SPACES = (('a',), ('a.b',), ('a', 'b'), ('a.b', 'a'), ('a', 'a.b.c'), ('x',), ('x', 'a'), ('a.b.c', 'x', 'b', 'y'), ())

    def decorate(self, when, spaces=None):
        for space in spaces or self.SPACES:
            given = [self.x if s == 'x' else self.y if s == 'y' else s for s in space]
            roots = [s for s in space if s not in 'xy']
            locals_ = [s for s in space if s in ('x', 'y')]

            def f():
                pass
            self.decorated.append(('%s made %s' % (space, when), log(handlers=given if len(space) % 2 else tuple(given))(f), roots, locals_))

    def compare(self, c, what):
        tree = config.get_handlers()
        for p in PATHS:
            want = self.map.get(p)
            got = tree.get(p)
            w = None if want is None else self.objects[want]
            if got is not w:
                c.bad('%s: under %s is %r instead of %r', what, p, got, w)
            try:
                found = tree[p]
            except KeyError:
                found = None
            if found is not w:
                c.bad('%s: [%s] is %r instead of %r', what, p, found, w)
            if want is not None and p not in tree:
                c.bad('%s: the registered path %s is said not to be in the tree', what, p)
            part = config.get_handlers(p)
            names = sorted(map(id, part))
            wanted = sorted(id(self.objects[o]) for o in self.under(p))
            if names != wanted or len(part) != len(wanted):
                c.bad('%s: the branch %s has %d handlers instead of %d', what, p, len(names), len(wanted))
        if len(tree) != len(self.map) + len(self.anonymous):
            c.bad('%s: %d handlers instead of %d', what, len(tree), len(self.map) + len(self.anonymous))
        del self.hits[:]
        log('m')
        c.eq(sorted(self.hits), sorted(list(self.map.values()) + self.anonymous), what + ': handlers of a manual record')
        for name, f, roots, locals_ in self.decorated:
            del self.hits[:]
            f()
            c.eq(sorted(map(str, self.hits)), sorted(map(str, self.under(*roots) + locals_)), '%s: handlers of a decorator with handlers=%s' % (what, name))

    def taken(self, o):
        return o in self.map.values() or o in self.anonymous

    def do(self, c, op, what):
        """One call; the model says whether it must be accepted."""
        kind, *args = op
        ok, change = False, lambda: None
        if kind == 'add':
            p, o = args
            ok = p not in self.map and not self.taken(o)
            change = lambda: self.map.update({p: o})
            if '.' in p:
                call = lambda: config.add_handlers({p: self.objects[o]})
            else:
                call = lambda: config.add_handlers(**{p: self.objects[o]})
        elif kind == 'put':
            o = args[0]
            ok = not self.taken(o)
            change = lambda: self.anonymous.append(o)
            call = lambda: config.add_handlers(self.objects[o])
        elif kind == 'del':
            p = args[0]
            ok = p in self.map
            change = lambda: self.map.pop(p)
            call = lambda: config.delete_handlers(p)
        elif kind == 'obj':
            o = args[0]
            ok = self.taken(o)

            def change():
                for p in [p for p, x in self.map.items() if x == o]:
                    del self.map[p]
                if o in self.anonymous:
                    self.anonymous.remove(o)
            call = lambda: config.delete_handlers(self.objects[o])
        elif kind == 'bad':
            p = args[0]
            if args[1] == 'add':
                call = lambda: config.add_handlers({p: self.x})
            else:
                call = lambda: config.delete_handlers(p)
        elif kind == 'wrong':
            v = [None, 5, lambda: None, lambda a, b: None, 'text', object()][args[0]]
            call = lambda: config.add_handlers(a_wrong=v) if args[1] else config.add_handlers({'w.x': v})
        elif kind == 'key':
            call = lambda: config.add_handlers({args[0]: self.x})
        else:
            raise ValueError(op)
        raised = None
        try:
            call()
        except Exception as e:
            raised = e
        c.op()
        if ok and raised is not None:
            c.bad('%s: %s was refused: %r', what, op, raised)
        if not ok and raised is None:
            c.bad('%s: %s was accepted', what, op)
        if ok:
            change()


ADD = [('add', p, o) for p in PATHS for o in OBJECTS]
OPS = ADD + [('put', o) for o in OBJECTS] + [('del', p) for p in PATHS] + [('obj', o) for o in OBJECTS]
WRONG = [('bad', p, k) for p in BAD_PATHS for k in ('add', 'del')] + [('wrong', i, n) for i in range(6) for n in (0, 1)] + [('key', k) for k in (5, None, ('a',))]


def sequence(c, ops):
    w = World()
    w.decorate('first')
    w.compare(c, 'in the beginning')
    for n, op in enumerate(ops):
        what = 'step %d of %s' % (n, ops)
        w.do(c, op, what)
        if n == len(ops) - 1 or n == 0:
            w.decorate('after step %d' % n, World.SPACES if n == 0 else World.SPACES[:3])
        w.compare(c, what)
    c.state(tuple(sorted(w.map.items())), tuple(w.anonymous))


def sequences(ctx):
    # symmetry: objects 0 and 2 are alike, so the first one used is 0 or 1
    for n in (1, 2, 3):
        for ops in itertools.product(OPS, repeat=n):
            if n == 3 and ops[0][0] in ('del', 'obj'):
                continue             # nothing to delete yet; covered by the shorter ones
            used = [o[-1] for o in ops if o[0] in ('add', 'put', 'obj') and o[-1] != 1]
            if used and used[0] == 2:
                continue
            yield ops
    if ctx.thorough:
        small = [o for o in OPS if o[-1] != 2]
        for ops in itertools.product(small, repeat=4):
            if ops[0][0] in ('del', 'obj'):
                continue
            yield ops
    tiny = [('add', 'a', 0), ('add', 'a.b', 1), ('add', 'a.b.c', 2), ('del', 'a'), ('del', 'a.b'), ('del', 'a.b.c'), ('obj', 1)]
    for n in ctx.pick((4,), (4, 5, 6)):
        for ops in itertools.product(tiny, repeat=n):
            yield ops
    for a in WRONG:
        yield (a,)
        for b in ADD[:4]:
            yield (b, a)
            yield (a, b)


TINY = [('add', 'a', 0), ('add', 'a.b', 1), ('add', 'a.b.c', 2), ('add', 'b', 0), ('del', 'a'), ('del', 'a.b'), ('del', 'a.b.c'), ('del', 'b')]


def single(c, spec):
    """The same with a few decorators only: what one decorator sees does not depend on what others refer to."""
    ops, made = spec
    w = World()
    for n, op in enumerate(ops):
        for k, space in made:
            if k == n:
                w.decorate('before step %d' % n, [space])
        what = 'step %d of %s' % (n, ops)
        w.do(c, op, what)
        if any(k <= n for k, _ in made):
            w.compare(c, what)
    c.state(tuple(sorted(w.map.items())), made)


def single_specs(ctx):
    spaces = [('a',), ('a.b',), ('a.b.c',), ('a.b', 'b'), ('b', 'a.b.c')]
    for n in ctx.pick((3, 4), (3, 4, 5)):
        for ops in itertools.product(TINY, repeat=n):
            have = set()
            for k, *a in ops:
                if k == 'add':
                    if a[0] in have or {'a': 'b', 'b': 'a'}.get(a[0]) in have:
                        break
                    have.add(a[0])
                else:
                    if a[0] not in have:
                        break
                    have.discard(a[0])
            else:
                for s in spaces:
                    for k in range(n):
                        yield ops, ((k, s),)
                if n <= 4:
                    for s, t in itertools.product(spaces[:3], repeat=2):
                        for k in range(1, n):
                            yield ops, ((0, s), (k, t))


def several(c, spec):
    """One call with several names: done one after another, up to the first that is refused."""
    kind, perm = spec
    w = World()
    w.decorate('first', World.SPACES[:4])
    if kind == 'add':
        d = {PATHS[i]: w.objects[i % 3] for i in perm}
        raised = False
        try:
            config.add_handlers(d)
        except Exception:
            raised = True
        for p, o in ((PATHS[i], i % 3) for i in perm):
            if w.taken(o):
                c.eq(raised, True, 'refused')
                break
            w.map[p] = o
        else:
            c.eq(raised, False, 'refused')
    else:
        for i in (0, 1, 2):
            w.do(c, ('add', PATHS[i], i), 'preparation')
        raised = False
        try:
            config.delete_handlers(*[PATHS[i] if kind == 'names' else w.objects[i % 3] for i in perm])
        except Exception:
            raised = True
        for i in perm:
            p = PATHS[i] if kind == 'names' else PATHS[i % 3]
            if p not in w.map:
                c.eq(raised, True, 'refused')
                break
            del w.map[p]
        else:
            c.eq(raised, False, 'refused')
    c.op(len(perm))
    w.compare(c, '%s %s' % (kind, perm))


class Race(Program):
    """Two changes of the registry at once give the result of one order; others are untouched."""

    def __init__(self, kind, trace):
        self.kind = kind
        self.name = 'race-%s' % kind
        self.trace = trace

    def run(self, k):
        kind = self.kind
        with calm():
            hits = []
            hs = [handler(lambda i, n=n: hits.append(n)) for n in range(4)]
            config.add_handlers({'keep.it': hs[3]})
            if kind.startswith('delete') or kind == 'replace':
                config.add_handlers({'n.m': hs[0]})

            @log(handlers=['n', 'keep'])
            def f():
                pass
            log('warm up')
        res = {}

        def do(who, fn):
            try:
                fn()
                res[who] = True
            except Exception as e:
                res[who] = type(e).__name__
        one, two = {
            'name': (lambda: config.add_handlers({'n.m': hs[0]}), lambda: config.add_handlers({'n.m': hs[1]})),
            'object': (lambda: config.add_handlers({'n.m': hs[0]}), lambda: config.add_handlers({'n.k': hs[0]})),
            'anonymous': (lambda: config.add_handlers(hs[0]), lambda: config.add_handlers(hs[1])),
            'same-anonymous': (lambda: config.add_handlers(hs[0]), lambda: config.add_handlers(hs[0])),
            'branch': (lambda: config.add_handlers({'n.m.x': hs[0]}), lambda: config.add_handlers({'n.m.y': hs[1]})),
            'delete': (lambda: config.delete_handlers('n.m'), lambda: config.delete_handlers('n.m')),
            'delete-object': (lambda: config.delete_handlers(hs[0]), lambda: config.delete_handlers('n.m')),
            'delete-add': (lambda: config.add_handlers({'n.m.x': hs[1]}), lambda: config.delete_handlers('n.m')),
            'replace': (lambda: config.add_handlers({'n.m': hs[1]}), lambda: config.delete_handlers('n.m')),
        }[kind]
        t = thread(do, 'a', one)
        do('b', two)
        t.join()
        del hits[:]
        log('m')
        every = sorted(hits)
        del hits[:]
        f()
        mine = sorted(hits)
        wins = [w for w in sorted(res) if res[w] is True]
        k.observe(sorted(res.items()), every, mine)
        k.check(every.count(3) == 1 and mine.count(3) == 1, 'an unrelated handler got %d and %d records', every.count(3), mine.count(3))
        every, mine = [x for x in every if x != 3], [x for x in mine if x != 3]
        if kind == 'name':
            k.check(len(wins) == 1 and every == [0 if wins == ['a'] else 1] and mine == every, 'winners %s, handlers %s %s', res, every, mine)
        elif kind == 'object':
            k.check(len(wins) == 1 and every == [0] and mine == [0], 'winners %s, handlers %s %s', res, every, mine)
        elif kind == 'anonymous':
            k.check(len(wins) == 2 and every == [0, 1] and mine == [], 'winners %s, handlers %s %s', res, every, mine)
        elif kind == 'same-anonymous':
            k.check(len(wins) == 1 and every == [0], 'winners %s, handlers %s', res, every)
        elif kind == 'branch':
            k.check(len(wins) == 2 and every == [0, 1] and mine == [0, 1], 'winners %s, handlers %s %s', res, every, mine)
        elif kind in ('delete', 'delete-object'):
            k.check(len(wins) == 1 and every == [] and mine == [], 'winners %s, handlers %s %s', res, every, mine)
        elif kind == 'delete-add':
            k.check(len(wins) == 2 and every == [1] and mine == [1], 'winners %s, handlers %s %s', res, every, mine)
        elif kind == 'replace':
            ok = (wins == ['b'] and every == []) or (len(wins) == 2 and every == [1])
            k.check(ok and mine == every, 'winners %s, handlers %s %s', res, every, mine)


class Logging(Program):
    """Records written during a change reach every handler that stays, once, and the changed one at most once."""

    def __init__(self, kind, trace):
        self.kind = kind
        self.name = 'logging-%s' % kind
        self.trace = trace

    def run(self, k):
        with calm():
            hits = []
            hs = [handler(lambda i, n=n: hits.append(n)) for n in range(4)]
            config.add_handlers({'a': hs[0], 'a.b': hs[1]})
            if self.kind == 'delete':
                config.add_handlers({'a.c': hs[2]})

            @log(handlers=['a', hs[3]])
            def f():
                pass
            f()
            log('warm up')
            del hits[:]

        def change():
            if self.kind == 'add':
                config.add_handlers({'a.c.d': hs[2]})
            elif self.kind == 'project':
                @log(handlers=['a.b', 'a.q', 'a'])
                def g():
                    pass
            else:
                config.delete_handlers('a.c')
        t = thread(change)
        f()
        got = sorted(hits)
        log('m')
        t.join()
        k.observe(tuple(hits))
        k.check([x for x in got if x != 2] == [0, 1, 3] and got.count(2) <= 1, 'a decorated call reached %s', got)
        rest = sorted(hits)
        k.check([rest.count(x) for x in (0, 1, 3)] == [2, 2, 1] and rest.count(2) <= 2, 'both records reached %s', rest)
        del hits[:]
        f()
        k.eq(sorted(hits), [0, 1] + ([2] if self.kind == 'add' else []) + [3], 'handlers after the change')


def run(ctx):
    ctx.cases('sequences', sequences(ctx), sequence, managed=False)
    ctx.cases('single namespaces', single_specs(ctx), single, managed=False)
    ctx.cases('several at once', [(k, p) for k in ('add', 'names', 'objects') for n in (1, 2, 3, 4) for p in itertools.permutations(range(4), n)], several, managed=False)
    reg = (P + 'config', P + 'data_structures/trees')
    for kind in ('name', 'object', 'anonymous', 'same-anonymous', 'branch', 'delete', 'delete-object', 'delete-add', 'replace'):
        ctx.explore(Race(kind, reg), 2 if kind in ('object', 'replace', 'delete-add') else 1, 2)
    for kind in ('add', 'delete', 'project'):
        ctx.explore(Logging(kind, reg + (P + 'core/log_item', P + 'loggers/auto')), 1, 2)
    volume.run(ctx, 'C14')
