"""C26: an automatic record tells the truth about the call."""
import asyncio
import functools
import itertools
import json
import time

from polog import config, log, message

from mc.sched import calm
from checks import volume
from checks.common import P, Program, flush, interleavings, run_tasks, thread

FIELDS = ('function', 'module', 'class', 'time', 'time_of_work', 'input_variables', 'result', 'success', 'exception_type', 'exception_message', 'traceback', 'local_variables', 'service_name', 'auto', 'message', 'level')
EPS = 1e-5


class Text:
    def __str__(self):
        return 'a text'


class Mute:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Sub(int):
    pass


class MyError(Exception):
    pass


class MuteError(Exception):
    def __str__(self):
        raise ValueError('no text')


def named(name):
    def f():
        pass
    f.__name__ = name
    return f


# name -> (value, (shown value, type)); ANY: some text
ANY = object()
TEXT, MUTE = Text(), Mute()
VALUES = {
    'int': (5, (5, 'int')), 'zero': (0, (0, 'int')), 'true': (True, (True, 'bool')), 'false': (False, (False, 'bool')), 'float': (-1.5, (-1.5, 'float')), 'text': ('x "y"', ('x "y"', 'str')), 'empty': ('', ('', 'str')),
    'none': (None, ('None', 'NoneType')), 'list': ([1, 'a'], ("[1, 'a']", 'list')), 'dict': ({'a': 1}, ("{'a': 1}", 'dict')), 'bytes': (b'x', ("b'x'", 'bytes')), 'object': (TEXT, ('a text', 'Text')), 'mute': (MUTE, (ANY, 'Mute')),
    'class': (Text, (str(Text), 'type')), 'huge': (10 ** 5000, (ANY, 'int')), 'unicode': ('Ж\u2028', ('Ж\u2028', 'str')), 'surrogate': ('\ud800', ('\ud800', 'str')), 'nested': ((1, (2, )), ('(1, (2,))', 'tuple')),
    'error': (ValueError('v'), ('v', 'ValueError')),
}


def capture():
    out = []

    def h(item):
        out.append({f: item.get(f) for f in FIELDS})
        out[-1]['args'] = item.function_input_data.args
        out[-1]['kwargs'] = item.function_input_data.kwargs
    config.add_handlers(h)
    return out


def near(c, got, want, what):
    """Reading the clock takes a few microseconds."""
    if not isinstance(got, float) or abs(got - want) > 1e-3:
        c.bad('%s: got %r, expected %r', what, got, want)


def same_variable(got, want):
    return isinstance(got, dict) and set(got) == {'value', 'type'} and got['type'] == want[1] and ((want[0] is ANY and isinstance(got['value'], (str, int))) or (got['value'] == want[0] and type(got['value']) is type(want[0])))


def check_variables(c, what, text, args, kwargs):
    """args: list of names of VALUES, kwargs: dict of such names."""
    if not args and not kwargs:
        c.eq(text, None, what + ': input variables')
        return
    got = json.loads(text)
    c.eq(set(got), ({'args'} if args else set()) | ({'kwargs'} if kwargs else set()), what + ': groups of input variables')
    for g, n in zip(got.get('args', ()), args):
        if not same_variable(g, VALUES[n][1]):
            c.bad('%s: the argument %s is recorded as %r', what, n, g)
    c.eq(len(got.get('args', ())), len(args), what + ': number of positional arguments')
    c.eq(sorted(got.get('kwargs', ())), sorted(kwargs), what + ': names of arguments')
    for k, n in kwargs.items():
        if k in got.get('kwargs', {}) and not same_variable(got['kwargs'][k], VALUES[n][1]):
            c.bad('%s: the argument %s=%s is recorded as %r', what, k, n, got['kwargs'][k])


def arguments(c, spec):
    """Every combination of arguments and results."""
    args, kwargs, result = spec
    out = capture()
    config.set(pool_size=0, level=0)

    @log
    def target(*a, **k):
        return VALUES[result][0]
    a = tuple(VALUES[n][0] for n in args)
    k = {name: VALUES[n][0] for name, n in kwargs}
    got = target(*a, **k)
    if got is not VALUES[result][0]:
        c.bad('the result was changed to %r', got)
    c.eq(len(out), 1, '%r: records' % (spec,))
    if not out:
        return
    r = out[0]
    check_variables(c, repr(spec), r['input_variables'], args, dict(kwargs))
    if not same_variable(json.loads(r['result']), VALUES[result][1]):
        c.bad('%r: the result is recorded as %r', spec, r['result'])
    c.eq([id(x) for x in r['args']], [id(x) for x in a], '%r: kept positional arguments' % (spec,))
    c.eq({n: id(x) for n, x in r['kwargs'].items()}, {n: id(x) for n, x in k.items()}, '%r: kept named arguments' % (spec,))
    c.eq((r['success'], r['exception_type'], r['exception_message'], r['traceback'], r['local_variables']), (True, None, None, None, None), '%r: success' % (spec,))
    c.op()
    c.state(spec)


def argument_specs(thorough):
    names = list(VALUES)
    for n in names:
        for m in names:
            yield ((n, ), (), m)
            yield ((), (('k', n), ), m)
            yield ((n, m), (), 'int')
            yield ((n, ), (('k', m), ), 'none')
            yield ((), (('k', n), ('self', m)), 'text')
    yield ((), (), 'int')
    if thorough:
        for n, m, o in itertools.product(names, repeat=3):
            yield ((n, m, o), (), 'int')
            yield ((n, ), (('a', m), ('args', o)), n)


ERRORS = {
    'value': (lambda: ValueError('bad value'), 'ValueError', 'bad value'), 'empty': (lambda: MyError(), 'MyError', ''), 'key': (lambda: KeyError('k'), 'KeyError', "'k'"), 'several': (lambda: MyError(1, 'two'), 'MyError', "(1, 'two')"),
    'mute': (lambda: MuteError('x'), 'MuteError', ANY), 'unicode': (lambda: MyError('Ж "x"\n%s'), 'MyError', 'Ж "x"\n%s'), 'assertion': (lambda: AssertionError('a'), 'AssertionError', 'a'), 'stop': (lambda: StopIteration(3), 'StopIteration', '3'),
}
KINDS = ('function', 'method', 'class-decorated', 'static', 'classmethod', 'nested', 'lambda', 'async', 'callable-name', 'async-method')


def helper(error, depth):
    if depth:
        helper(error, depth - 1)
    raise error


def make(kind, deco, body):
    """(callable, names of its frames, class name, function name, hidden positional arguments)"""
    if kind == 'function' or kind == 'callable-name':
        def target(x, y=2):
            local = 'a local'
            return body(x)
        if kind == 'callable-name':
            target.__name__ = 'other_name'
            target.__module__ = 'other.module'
        return deco(target), 'target', None, target.__name__, target.__module__
    if kind == 'lambda':
        f = lambda x, y=2: body(x)       # noqa
        return deco(f), '<lambda>', None, '<lambda>', __name__
    if kind == 'nested':
        class Outer:
            class Inner:
                @deco
                def target(self, x, y=2):
                    local = 'a local'
                    return body(x)
        return Outer.Inner().target, 'target', 'Inner', 'target', __name__
    if kind == 'method':
        class Klass:
            @deco
            def target(self, x, y=2):
                local = 'a local'
                return body(x)
        return Klass().target, 'target', 'Klass', 'target', __name__
    if kind == 'class-decorated':
        @deco
        class Klass:
            def target(self, x, y=2):
                local = 'a local'
                return body(x)
        return Klass().target, 'target', 'Klass', 'target', __name__
    if kind == 'static':
        @deco
        class Klass:
            @staticmethod
            def target(x, y=2):
                local = 'a local'
                return body(x)
        return Klass.target, 'target', 'Klass', 'target', __name__
    if kind == 'classmethod':
        @deco
        class Klass:
            @classmethod
            def target(cls, x, y=2):
                local = 'a local'
                return body(x)
        return Klass.target, 'target', 'Klass', 'target', __name__
    if kind == 'async':
        @deco
        async def target(x, y=2):
            local = 'a local'
            await asyncio.sleep(0)
            return body(x)
        return (lambda *a, **k: asyncio.run(target(*a, **k))), 'target', None, 'target', __name__
    if kind == 'async-method':
        class Klass:
            @deco
            async def target(self, x, y=2):
                local = 'a local'
                await asyncio.sleep(0)
                return body(x)
        o = Klass()
        return (lambda *a, **k: asyncio.run(o.target(*a, **k))), 'target', 'Klass', 'target', __name__


def frames(text):
    """[(file, line, name)] of a recorded traceback."""
    result = []
    for entry in json.loads(text):
        first = entry.strip().splitlines()[0]
        path, rest = first[len('File "'):].split('", line ')
        line, name = rest.split(', in ', 1)
        result.append((path, int(line), name))
    return result


def single(c, spec):
    """One call of every kind of callable, with every outcome."""
    kind, outcome, depth, before, service, suppress = spec
    out = capture()
    config.set(pool_size=0, level=0, service_name=service)
    moments = {}

    def body(x):
        moments['start'] = time.time()
        time.sleep(before)
        moments['finish'] = time.time()
        if outcome == 'return':
            return 'result'
        helper(ERRORS[outcome][0](), depth)
    deco = log('the message')
    call, frame, klass, name, module = make(kind, deco.suppress() if suppress else deco, body)
    start = time.time()
    raised = None
    try:
        call('value of x', y=3)
    except Exception as e:    # noqa
        raised = e
    c.op()
    what = repr(spec)
    c.eq(len(out), 1, what + ': records')
    if not out:
        return
    r = out[0]
    c.eq((r['function'], r['module'], r['class'], r['auto'], r['message'], r['service_name']), (name, module, klass, True, 'the message', service), what + ': function, module, class, auto, message, service')
    if kind.startswith('async'):
        if not (start <= r['time'].timestamp() + EPS and r['time'].timestamp() <= moments['start'] + EPS):
            c.bad('%s: the time is %r', what, r['time'])
    else:
        near(c, r['time'].timestamp(), moments['start'], what + ': start')
        near(c, r['time_of_work'], moments['finish'] - moments['start'], what + ': duration')
    if abs(r['time_of_work'] - before) > 0.01:
        c.bad('%s: the duration is %r', what, r['time_of_work'])
    got = json.loads(r['input_variables'])
    values = [v['value'] for v in got.get('args', ())]
    c.eq((values[-1:], got.get('kwargs')), (['value of x'], {'y': {'value': 3, 'type': 'int'}}), what + ': input variables')
    c.eq(len(values), 2 if klass and kind not in ('static',) else 1, what + ': number of positional arguments')
    if outcome == 'return':
        c.eq((r['success'], json.loads(r['result']), r['exception_type'], r['exception_message'], r['traceback'], r['level']), (True, {'value': 'result', 'type': 'str'}, None, None, None, 1), what + ': success, result, exception, level')
    else:
        kind_, text = ERRORS[outcome][1:]
        if kind.startswith('async') and outcome == 'stop':
            kind_, text = 'RuntimeError', ANY
        c.eq((r['success'], r['result'], r['exception_type'], r['level']), (False, None, kind_, 2), what + ': success, result, exception, level')
        if text is not ANY and r['exception_message'] != text or not isinstance(r['exception_message'], str):
            c.bad('%s: the message of the exception is %r', what, r['exception_message'])
        names = [n for f, l, n in frames(r['traceback'])]
        if text is not ANY:
            c.eq(names, [frame, 'body'] + ['helper'] * (depth + 1), what + ': traceback')
            locals_ = json.loads(r['local_variables'])['kwargs']
            c.eq((locals_['x']['value'], locals_['y']['value']), ('value of x', 3), what + ': local variables')
            if frame != '<lambda>':
                c.eq(locals_['local']['value'], 'a local', what + ': local variable')
        if bool(raised) == bool(suppress):
            c.bad('%s: raised %r', what, raised)
    c.state(spec)


def single_specs(thorough):
    for kind in KINDS:
        for outcome in ['return'] + list(ERRORS):
            for depth in (0, 2) if outcome != 'return' else (0, ):
                for before in (0, 0.5, 100):
                    for service in (None, 'svc'):
                        for suppress in (False, True):
                            if suppress and kind in ('class-decorated', 'static', 'classmethod'):
                                continue
                            yield (kind, outcome, depth, before, service, suppress)


def trees(size):
    """All ordered trees (as nested tuples of (outcome, children)) with that many nodes."""
    def forests(n):
        if n == 0:
            yield ()
            return
        for first in range(1, n + 1):
            for t in nodes(first):
                for rest in forests(n - first):
                    yield (t, ) + rest

    def nodes(n):
        for children in forests(n - 1):
            for outcome in ('return', 'raise') + (('pass', ) if children else ()):
                yield (outcome, children)
    yield from nodes(size)


def recursion(c, spec):
    """Recursive calls of one decorated function: every record is about its own call."""
    tree, way, extra = spec
    out = capture()
    config.set(pool_size=0, level=0, deduplicate_errors=False)
    expected = []
    counter = itertools.count()

    def plan(node):
        """Number the nodes in calling order; compute what each call does."""
        outcome, children = node
        return (next(counter), outcome, tuple(plan(x) for x in children))

    def body(node, recurse):
        number, outcome, children = node
        start = time.time()
        time.sleep(number + 1)
        error = None
        path = None
        for child in children:
            try:
                recurse(child, number=child[0])
            except MyError as e:
                if outcome == 'pass':
                    expected.append((number, start, time.time(), e))
                    raise
        time.sleep(0.25)
        if outcome == 'raise':
            e = MyError('error of %d' % number)
            expected.append((number, start, time.time(), e))
            raise e
        expected.append((number, start, time.time(), None))
        return 'result of %d' % number
    if way == 'function':
        @log
        def target(node, number):
            if extra:
                message('message of %d' % number)
            return body(node, target)
        call = target
    elif way == 'method':
        class Klass:
            @log
            def target(self, node, number):
                if extra:
                    message('message of %d' % number)
                return body(node, self.target)
        call = Klass().target
    else:
        @log
        def first(node, number):
            if extra:
                message('message of %d' % number)
            return body(node, second)

        @log
        def second(node, number):
            if extra:
                message('message of %d' % number)
            return body(node, first)
        call = first
    root = plan(tree)
    try:
        call(root, number=0)
    except MyError:
        pass
    c.eq(len(out), len(expected), '%r: records' % (spec,))
    for r, (number, start, finish, error) in zip(out, expected):
        what = '%r: call %d' % (spec, number)
        c.eq(json.loads(r['input_variables'])['kwargs'], {'number': {'value': number, 'type': 'int'}}, what + ': arguments')
        c.eq(r['kwargs'], {'number': number}, what + ': kept arguments')
        c.eq(r['message'], 'message of %d' % number if extra else None, what + ': message')
        near(c, r['time'].timestamp(), start, what + ': start')
        near(c, r['time_of_work'], finish - start, what + ': duration')
        c.eq((r['success'], json.loads(r['result'])['value'] if r['result'] else None, r['exception_message']), (error is None, None if error else 'result of %d' % number, str(error) if error else None), what + ': outcome')
        if error is not None:
            mine = [n for f, l, n in frames(r['traceback']) if f.endswith('c26.py')]
            c.eq(mine[:1], ['target'] if way != 'mutual' else mine[:1], what + ': first frame')
            local = json.loads(r['local_variables'])['kwargs']
            c.eq(local['number']['value'], number, what + ': local variables')
        else:
            c.eq((r['traceback'], r['local_variables']), (None, None), what + ': traceback')
        c.op()
    c.state(spec)


def blocks(c, spec):
    """with-blocks, nested: each record is about its own block."""
    shape, outcome, service = spec
    out = capture()
    config.set(pool_size=0, level=0, service_name=service)
    expected = []

    def nest(depth):
        manager = log('block %d' % depth, own=depth)
        time.sleep(0.25)          # the block begins when it is entered
        start = time.time()
        try:
            with manager:
                time.sleep(depth + 1)
                if depth + 1 < len(shape):
                    if shape[depth] == 'catch':
                        try:
                            nest(depth + 1)
                        except MyError:
                            pass
                    else:
                        nest(depth + 1)
                elif outcome == 'raise':
                    raise MyError('deep')
                time.sleep(0.5)
        except MyError as e:
            expected.append((depth, start, time.time(), e))
            raise
        expected.append((depth, start, time.time(), None))
    try:
        nest(0)
    except MyError:
        pass
    c.eq(len(out), len(expected), '%r: records' % (spec,))
    for r, (depth, start, finish, error) in zip(out, expected):
        what = '%r: block %d' % (spec, depth)
        c.eq((r['message'], r['auto'], r['service_name']), ('block %d' % depth, False, service), what + ': message')
        near(c, r['time'].timestamp(), start, what + ': start')
        near(c, r['time_of_work'], finish - start, what + ': duration')
        c.eq((r['success'], r['exception_type'], r['exception_message'], r['level']), (error is None, 'MyError' if error else None, 'deep' if error else None, 2 if error else 1), what + ': outcome')
        if error:
            c.eq({n for f, l, n in frames(r['traceback'])}, {'nest'}, what + ': traceback')
        else:
            c.eq(r['traceback'], None, what + ': traceback')
        c.op()
    c.state(spec)


def manual(c, spec):
    """The exception given to a manual log is described truthfully."""
    outcome, depth, way = spec
    out = capture()
    config.set(pool_size=0, level=0)

    def target(x):
        local = 'a local'
        helper(ERRORS[outcome][0](), depth)
    try:
        target('value of x')
    except Exception as e:    # noqa
        if way == 'e':
            log('manual', e=e)
        elif way == 'exception':
            log('manual', exception=e, function=target)
        else:
            log('manual', e=e, level=9)
    r = out[0]
    kind, text = ERRORS[outcome][1:]
    what = repr(spec)
    c.eq((r['success'], r['exception_type'], r['level'], r['auto']), (False, kind, 9 if way == 'level' else 2, False), what + ': outcome')
    if text is not ANY:
        c.eq(r['exception_message'], text, what + ': message')
    c.eq([n for f, l, n in frames(r['traceback'])], ['manual', 'target'] + ['helper'] * (depth + 1), what + ': traceback')
    c.op()


class Threads(Program):
    """Concurrent calls of one decorated callable."""

    def __init__(self, plans, pool=0, trace=None):
        self.plans, self.pool = plans, pool
        self.trace = trace or (P + 'loggers/auto', P + 'utils', P + 'core/utils')
        self.name = 'threads-%s-%d' % ('+'.join(plans), pool)

    def run(self, k):
        spans = {}
        with calm():
            out = capture()
            config.set(pool_size=self.pool, level=0, deduplicate_errors=False)

            @log
            def target(number, **more):
                spans[number] = [time.time()]
                if 'sleep' in self.plans[number]:
                    time.sleep(number + 1)
                message('message of %d' % number)
                spans[number].append(time.time())
                if 'raise' in self.plans[number]:
                    raise MyError('error of %d' % number)
                return 'result of %d' % number

        def call(number):
            before = time.time()
            try:
                target(number, **{'key%d' % number: number})
            except MyError:
                pass
            spans[number] += [before, time.time()]
        ts = [thread(call, n) for n in range(1, len(self.plans))]
        call(0)
        for t in ts:
            t.join()
        flush()
        k.eq(len(out), len(self.plans), 'records')
        for r in out:
            number = r['args'][0]
            what = 'call %d' % number
            plan = self.plans[number]
            k.eq(json.loads(r['input_variables']), {'args': [{'value': number, 'type': 'int'}], 'kwargs': {'key%d' % number: {'value': number, 'type': 'int'}}}, what + ': arguments')
            k.eq(r['message'], 'message of %d' % number, what + ': message')
            inner, end, before, after = spans[number]
            start = r['time'].timestamp()
            if not (before <= start + EPS and start <= inner + EPS):
                k.bad('%s: started at %r, must be in %r..%r', what, start, before, inner)
            if not (end <= start + r['time_of_work'] + EPS and start + r['time_of_work'] <= after + EPS):
                k.bad('%s: started at %r, took %r, must end in %r..%r', what, start, r['time_of_work'], end, after)
            if 'raise' in plan:
                k.eq((r['success'], r['result'], r['exception_type'], r['exception_message']), (False, None, 'MyError', 'error of %d' % number), what + ': outcome')
                k.eq([n for f, l, n in frames(r['traceback'])], ['target'], what + ': traceback')
                k.eq(json.loads(r['local_variables'])['kwargs']['number'], {'value': number, 'type': 'int'}, what + ': local variables')
            else:
                k.eq((r['success'], json.loads(r['result'])['value'], r['exception_type'], r['traceback']), (True, 'result of %d' % number, None, None), what + ': outcome')


def tasks(c, spec):
    """Concurrent tasks that call one decorated coroutine function: all interleavings of their steps."""
    plans, order = spec
    out = capture()
    config.set(pool_size=0, level=0, deduplicate_errors=False)
    spans = {}

    @log
    async def target(number, step):
        spans[number] = [time.time()]
        time.sleep(number + 1)
        message('message of %d' % number)
        await step()
        if plans[number] == 'block':
            with log('block of %d' % number):
                await step()
        else:
            await step()
        time.sleep(0.5)
        spans[number].append(time.time())
        if plans[number] == 'raise':
            raise MyError('error of %d' % number)
        return 'result of %d' % number

    def body(number):
        async def run_(step):
            try:
                return await target(number, step=step)
            except MyError:
                return 'raised'
        return run_
    run_tasks([body(n) for n in range(len(plans))], order)
    records = [r for r in out if r['auto']]
    c.eq(len(records), len(plans), '%r: records' % (spec,))
    c.eq(len(out) - len(records), plans.count('block'), '%r: records of blocks' % (spec,))
    for r in records:
        number = r['args'][0]
        what = '%r: task %d' % (spec, number)
        start, finish = spans[number]
        c.eq(json.loads(r['input_variables'])['args'], [{'value': number, 'type': 'int'}], what + ': arguments')
        c.eq(r['message'], 'message of %d' % number, what + ': message')
        near(c, r['time'].timestamp(), start, what + ': start')
        near(c, r['time_of_work'], finish - start, what + ': duration')
        if plans[number] == 'raise':
            c.eq((r['success'], r['result'], r['exception_message']), (False, None, 'error of %d' % number), what + ': outcome')
        else:
            c.eq((r['success'], json.loads(r['result'])['value'], r['exception_message']), (True, 'result of %d' % number, None), what + ': outcome')
    c.op(len(order))
    c.state(spec)


def run(ctx):
    ctx.cases('arguments', argument_specs(ctx.thorough), arguments, managed=False)
    ctx.cases('single', single_specs(ctx.thorough), single)
    sizes = range(1, 7 if ctx.thorough else 6)
    ctx.cases('recursion', ((t, w, e) for n in sizes for t in trees(n) for w in ('function', 'method', 'mutual') for e in (False, True)), recursion)
    ctx.cases('blocks', ((s, o, v) for n in range(1, 5) for s in itertools.product(('catch', 'pass'), repeat=n) for o in ('return', 'raise') for v in (None, 'svc')), blocks)
    ctx.cases('manual', itertools.product([e for e in ERRORS], (0, 1, 3), ('e', 'exception', 'level')), manual, managed=False)
    ctx.cases('tasks', ((p, o) for p in itertools.product(('return', 'raise', 'block'), repeat=2) for o in interleavings((3, 3))), tasks)
    if ctx.thorough:
        ctx.cases('three tasks', ((p, o) for p in itertools.product(('return', 'raise'), repeat=3) for o in interleavings((3, 3, 3))), tasks)
    for plans in (('return', 'return'), ('return', 'raise'), ('raise', 'return'), ('raise', 'raise')):
        ctx.explore(Threads(plans), 1, 2)
    ctx.explore(Threads(('return', 'raise'), pool=1), 1, 2)
    ctx.explore(Threads(('raise', 'raise'), trace=(P + 'loggers/auto', P + 'core/utils/get_traceback.py', P + 'core/utils/exception_to_dict.py')), 2, 2)
    ctx.explore(Threads(('return-sleep', 'raise-sleep'), trace=(P + 'loggers/auto', )), 2, 2)
    ctx.explore(Threads(('return-sleep', 'raise', 'return'), trace=(P + 'loggers/auto', )), 1, 2)
    volume.run(ctx, 'C26')
