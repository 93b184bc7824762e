"""
Controlled (cooperative) scheduler for REAL Python code.

`install()` must run before polog (and `queue`) is imported.  It replaces the blocking primitives the
standard library and polog are built from -- threading.Lock / RLock, Thread.start / join / is_alive,
time.sleep, the clocks, fcntl.flock, _thread.interrupt_main -- by cooperative versions.  Everything above them
(queue.Queue, Condition, Event, Semaphore, Timer ...) is the real pure-python stdlib code.

While an execution is *managed* (between Sched.run() start and end), exactly one thread runs at a time, and every
  * operation on a primitive,
  * source line executed in a file selected by the scenario (sys.settrace line events), or every byte code of it that touches something
    shared (scenarios with `opcodes`, sys.monitoring instruction events)
is a scheduling point.  At a scheduling point the scheduler picks one of the enabled options:
option 0 is the default (keep running the current thread; if it is blocked, the next enabled thread in
round-robin order; if nothing is enabled, advance the virtual clock to the earliest deadline); any other option is a
*deviation* (see Sched._pick).  An execution is fully determined by its set of deviations {choice index: option}, so the explorer
(mc.explore) enumerates exactly all executions with at most `bound` deviations.
"""
import sys
import os
import time as _time
import threading
import _thread
import errno

_real_allocate = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_real_time = _time.time
_real_monotonic = _time.monotonic
_real_perf = _time.perf_counter
_real_sleep = _time.sleep
_real_thread_start = threading.Thread.start
_real_thread_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive
_get_ident = threading.get_ident

RUN, BLOCKED, DONE = 'run', 'blocked', 'done'

current = None          # the active Sched, or None
EPOCH = 1700000123.456789    # virtual time.time() at the start of a managed execution


class DivergenceError(Exception):
    """A replayed prefix did not reach the same choice points: the execution is not deterministic."""


class _Kill(BaseException):
    pass


class T:
    __slots__ = ('id', 'name', 'gate', 'status', 'pred', 'deadline', 'timed_out', 'thread', 'ident', 'interrupt',
                 'exc', 'daemon', 'why', 'suspended', 'fresh')

    def __init__(self, id, name, daemon=False):
        self.id = id
        self.name = name
        self.gate = _real_allocate()
        self.gate.acquire()
        self.status = RUN
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.thread = None
        self.ident = None
        self.interrupt = False
        self.exc = None
        self.daemon = daemon
        self.why = ''
        self.suspended = 0
        self.fresh = False     # a line point was just passed


class Stop(Exception):
    """Raised inside the harness when an execution ends abnormally (deadlock, livelock ...)."""


class Sched:
    def __init__(self, deviations=None, trace_paths=(), trace_exclude=(), max_steps=200000, time_horizon=1000.0,
                 timeouts=False, opcodes=False, record=False, patience=6):
        self.deviations = dict(deviations or {})
        self.trace_paths = tuple(trace_paths)
        self.trace_exclude = tuple(trace_exclude)
        self.max_steps = max_steps
        self.time_horizon = time_horizon
        self.timeouts = timeouts
        self.opcodes = opcodes
        self.record = record
        self.threads = []
        self.cur = None
        self.now = 0.0
        self.steps = 0
        self.options = []       # number of options at each choice point
        self.taken = 0          # deviations actually used
        self.log = []           # (choice idx, thread, where) for replays
        self.outcome = None     # None | 'deadlock' | 'livelock' | ...
        self.outcome_detail = ''
        self.done_gate = _real_allocate()
        self.done_gate.acquire()
        self.finished = False
        self._code_cache = {}
        self.starved = 0
        self.starved_since = 0.0
        self.suspend_count = 0
        self.patience = patience
        self.allow_interrupt = False
        self.calm = 0           # >0: the default option is taken without creating a choice point
        self.frozen = 0         # >0: scheduling points are ignored (harness oracle code)

    # -- bookkeeping ----------------------------------------------------------------------------------------
    def _me(self):
        cur = self.cur
        if cur is not None and cur.ident == _get_ident():
            return cur
        return None

    def _enabled(self, t):
        if t.status == RUN:
            return True
        if t.status == BLOCKED:
            return t.pred is not None and t.pred()
        return False

    def _wake(self, t):
        if t.status == BLOCKED:
            t.status = RUN
            t.pred = None
            t.deadline = None

    def _expire(self, t):
        if t.deadline > self.now:
            self.now = t.deadline
        t.timed_out = True
        t.status = RUN
        t.pred = None
        t.deadline = None

    def _choose(self, n):
        """Consume one choice point with n options; returns the option index."""
        idx = len(self.options)
        self.options.append(n)
        alt = self.deviations.get(idx, 0)
        if alt:
            if alt >= n:
                raise_divergence(self, 'choice %d has %d options, the prefix wanted %d' % (idx, n, alt))
            self.taken += 1
        return alt

    def _pick(self, cur_can_run):
        """
        Decide which thread runs next. Returns a T or None (deadlock).

        A thread that is preempted by a deviation is *suspended*: by default it runs again only when every other
        thread is blocked and `patience` timers (or a minute of virtual time) have expired meanwhile (this models a descheduled thread, and lets
        one deviation express "X is delayed past everything the others do"). Resuming it earlier is a deviation.
        """
        cur = self.cur
        ts = self.threads
        n = len(ts)
        active = []
        if cur_can_run:
            active.append(cur)
        start = cur.id + 1
        susp = []
        for k in range(n):
            t = ts[(start + k) % n]
            if t is cur and cur_can_run:
                continue
            if self._enabled(t):
                (susp if t.suspended else active).append(t)
        if susp:
            susp.sort(key=lambda t: t.suspended)
        timed = None
        for t in ts:
            if t.status == BLOCKED and t.deadline is not None and t not in active and t not in susp:
                if timed is None or t.deadline < timed.deadline:
                    timed = t
        options = active + susp
        fire = 0
        if not active:
            if not susp:
                if timed is None:
                    return None
                self._expire(timed)
                return timed
            if timed is not None and self.starved < self.patience and timed.deadline - self.starved_since <= 61:
                options.insert(0, timed)
                fire = 1
        if not fire and timed is not None and self.timeouts and timed.deadline - self.now <= 61:
            options.append(timed)
        k = self._choose(len(options)) if len(options) > 1 and not self.calm else 0
        t = options[k]
        if t is timed:
            self.starved += 1
            self._expire(timed)
        elif t.suspended:
            t.suspended = 0
            self.starved = 0
            self.starved_since = self.now
        if cur_can_run and t is not cur:
            self.suspend_count += 1
            cur.suspended = self.suspend_count
            self.starved = 0
            self.starved_since = self.now
        return t

    # -- scheduling -----------------------------------------------------------------------------------------
    def point(self, where=''):
        """A scheduling point of the running thread (it stays runnable)."""
        if self.frozen:
            return
        me = self.cur
        if me is None or me.ident != _get_ident():
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._finish('livelock', 'more than %d scheduling points' % self.max_steps)
        if len(self.threads) == 1:
            return
        nxt = self._pick(True)
        if nxt is not me:
            if self.record:
                self.log.append((len(self.options) - 1, me.name, where, nxt.name))
            self._switch(me, nxt)

    def deliver(self):
        """
        KeyboardInterrupt of _thread.interrupt_main: delivered when a sleep, a join or an unsuccessful timed wait of the main
        thread returns -- where CPython delivers it in practice. A tripped signal does not wake a blocked wait.
        """
        me = self.cur
        if me.interrupt:
            me.interrupt = False
            raise KeyboardInterrupt

    def prim(self, where):
        """A scheduling point before a primitive; redundant when nothing shared happened since the last line point."""
        me = self.cur
        if me is not None and me.fresh:
            me.fresh = False
            return
        self.point(where)

    def block(self, pred, deadline=None, why=''):
        """Block the running thread until pred() (evaluated by the scheduler) or the deadline. True = pred."""
        me = self.cur
        if self.frozen:
            raise RuntimeError('blocking operation inside harness oracle code')
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self._finish('livelock', 'more than %d scheduling points' % self.max_steps)
            me.status = BLOCKED
            me.pred = pred
            me.deadline = deadline
            me.timed_out = False
            me.why = why
            nxt = self._pick(False)
            if nxt is None:
                self._finish('deadlock', self._describe())
            if self.now > self.time_horizon:
                self._finish('hang', 'virtual time passed %.0f s: %s' % (self.time_horizon, self._describe()))
            if nxt is not me:
                if self.record:
                    self.log.append((len(self.options) - 1, me.name, why, nxt.name))
                self._switch(me, nxt)
            else:
                self._wake(me)
            me.status = RUN
            if me.timed_out:
                me.timed_out = False
                self.deliver()
                return False
            if pred is None or pred():
                return True

    def _describe(self):
        return '; '.join('%s: %s' % (t.name, t.why) for t in self.threads if t.status == BLOCKED)

    def _switch(self, me, nxt):
        self._wake(nxt)
        self.cur = nxt
        nxt.gate.release()
        me.gate.acquire()

    def _finish(self, outcome, detail=''):
        """End of the execution, from any thread: wakes the harness; this thread never continues."""
        self.outcome = outcome
        self.outcome_detail = detail
        self.finished = True
        self.done_gate.release()
        sys.settrace(None)
        g = _real_allocate()
        g.acquire()
        g.acquire()   # parked forever; the process exits with os._exit

    def _thread_end(self, me):
        me.status = DONE
        if me is self.threads[0]:
            self._finish(None)
        nxt = self._pick(False)
        if nxt is None:
            self._finish('deadlock', self._describe())
        self._wake(nxt)
        self.cur = nxt
        nxt.gate.release()

    # -- tracing --------------------------------------------------------------------------------------------
    def _selected(self, code):
        try:
            return self._code_cache[code]
        except KeyError:
            fn = code.co_filename
            r = any(fn.startswith(p) for p in self.trace_paths) and not any(fn.startswith(p) for p in self.trace_exclude)
            self._code_cache[code] = r
            return r

    def _trace_call(self, frame, event, arg):
        if event == 'call' and self._selected(frame.f_code):
            return self._trace_line
        return None

    def _trace_line(self, frame, event, arg):
        if event == 'line':
            code = frame.f_code
            try:
                local = _local_cache[code]
            except KeyError:
                local = _local_cache[code] = local_lines(code)
            if frame.f_lineno not in local:
                self.point((code.co_filename, frame.f_lineno) if self.record else '')
                if self.cur is not None and not self.frozen:
                    self.cur.fresh = True
        return self._trace_line

    def _instruction(self, code, offset):
        if offset in _shared_cache[code]:
            self.point((code.co_filename, offset) if self.record else '')
            if self.cur is not None and not self.frozen:
                self.cur.fresh = True

    def watch_byte_codes(self):
        """Before any thread starts: sys.monitoring instead of sys.settrace, whose opcode events crash 3.12 with several threads."""
        mon = sys.monitoring
        tool = mon.DEBUGGER_ID
        mon.use_tool_id(tool, 'mc')
        mon.register_callback(tool, mon.events.INSTRUCTION, self._instruction)
        for code in codes_under(self.trace_paths):
            if self._selected(code):
                _shared_cache[code] = shared_ops(code)
                mon.set_local_events(tool, code, mon.events.INSTRUCTION)

    def start_tracing(self):
        if self.trace_paths and not self.opcodes:
            sys.settrace(self._trace_call)

    # -- running --------------------------------------------------------------------------------------------
    def run(self, main):
        """Run main() as managed thread 0 until it returns or the execution gets stuck. Returns its value."""
        global current
        box = {}
        if self.opcodes:
            self.watch_byte_codes()
        t0 = T(0, 'main')
        self.threads.append(t0)

        def body():
            t0.gate.acquire()
            t0.ident = _get_ident()
            self.start_tracing()
            try:
                box['value'] = main()
            except BaseException as e:    # noqa
                t0.exc = e
            finally:
                sys.settrace(None)
            if not self.finished:
                self._thread_end(t0)
        current = self
        self.cur = t0
        _real_start_new_thread(body, ())
        t0.gate.release()
        if not self.done_gate.acquire(True, 120):
            current = None
            self.outcome = 'stuck'
            self.outcome_detail = 'no scheduling point reached for 120 s of real time'
            return None
        current = None
        if self.outcome is None and t0.exc is not None:
            raise t0.exc
        return box.get('value')

    def spawn(self, thread):
        t = T(len(self.threads), 'T%d' % len(self.threads), thread.daemon)
        t.thread = thread
        thread._mc = t
        thread._mc_sched = self
        self.threads.append(t)

        def boot():
            t.gate.acquire()
            t.ident = _get_ident()
            thread._set_ident()
            threading._active[thread._ident] = thread
            thread._started._flag = True
            self.start_tracing()
            try:
                thread.run()
            except SystemExit:
                pass
            except BaseException as e:    # noqa
                t.exc = e
            finally:
                sys.settrace(None)
                threading._active.pop(thread._ident, None)
            if not self.finished:
                self._thread_end(t)
        thread._started._flag = True
        _real_start_new_thread(boot, ())
        self.point('thread start')
        return t

    def thread_errors(self):
        return [(t.name, t.exc) for t in self.threads if t.exc is not None]


LOCAL_OPS = frozenset('RESUME NOP CACHE POP_TOP PUSH_NULL COPY SWAP EXTENDED_ARG LOAD_CONST LOAD_FAST LOAD_FAST_CHECK '
                      'LOAD_FAST_AND_CLEAR STORE_FAST DELETE_FAST RETURN_VALUE RETURN_CONST JUMP_FORWARD JUMP_BACKWARD '
                      'JUMP_BACKWARD_NO_INTERRUPT POP_JUMP_IF_NONE POP_JUMP_IF_NOT_NONE POP_JUMP_IF_TRUE '
                      'POP_JUMP_IF_FALSE IS_OP PUSH_EXC_INFO POP_EXCEPT RERAISE BUILD_TUPLE MAKE_CELL COPY_FREE_VARS'.split())


def local_lines(code):
    """Lines that only touch local variables: preempting before them equals preempting at the next point."""
    import dis
    ops = {}
    line = None
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None:
            line = ins.starts_line
        ops.setdefault(line, set()).add(ins.opname)
    # a branch on a local variable may call __bool__: harmless for the plain values polog keeps in locals
    return frozenset(k for k, v in ops.items() if v <= LOCAL_OPS)


# byte codes that read or change something another thread may see, or call something; a read of a global is not among them, since the
# point before the next such byte code already separates it from whatever it is combined with
SHARED_OPS = frozenset('LOAD_ATTR STORE_ATTR DELETE_ATTR LOAD_SUPER_ATTR BINARY_SUBSCR STORE_SUBSCR DELETE_SUBSCR BINARY_SLICE STORE_SLICE '
                       'STORE_GLOBAL DELETE_GLOBAL STORE_NAME STORE_DEREF DELETE_DEREF BINARY_OP CONTAINS_OP FOR_ITER CALL CALL_FUNCTION_EX '
                       'CALL_INTRINSIC_1 CALL_INTRINSIC_2 BEFORE_WITH WITH_EXCEPT_START LIST_EXTEND DICT_UPDATE DICT_MERGE SET_UPDATE '
                       'UNPACK_SEQUENCE UNPACK_EX'.split())


def shared_ops(code):
    """Offsets of the byte codes of this code object that are scheduling points in an exploration at the level of byte codes."""
    import dis
    return frozenset(i.offset for i in dis.get_instructions(code) if i.opname in SHARED_OPS)


_local_cache = {}
_shared_cache = {}
_codes = {}


def codes_under(paths):
    """All loaded code objects of the files under `paths` (collected once: workers freeze the heap, which hides it from gc)."""
    paths = tuple(paths)
    if paths in _codes:
        return _codes[paths]
    import gc
    import types
    found = {}

    def visit(code):
        if id(code) in found or not any(code.co_filename.startswith(p) for p in paths):
            return
        found[id(code)] = code
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                visit(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            visit(o.__code__)
    _codes[paths] = list(found.values())
    return _codes[paths]


def prewarm(paths):
    """Analyse all loaded code under `paths` once, before executions are forked off."""
    for code in codes_under(paths):
        if code not in _local_cache:
            _local_cache[code] = local_lines(code)


def raise_divergence(s, msg):
    s._finish('divergence', msg)


def _managed():
    s = current
    if s is not None and not s.finished and s._me() is not None:
        return s
    return None


class frozen:
    """Harness code that must not create scheduling points."""
    def __enter__(self):
        if current is not None:
            current.frozen += 1

    def __exit__(self, *a):
        if current is not None:
            current.frozen -= 1


class calm:
    """Set-up and tear-down of a scenario: scheduled normally, but no deviations are explored here."""
    def __enter__(self):
        if current is not None:
            current.calm += 1

    def __exit__(self, *a):
        if current is not None:
            current.calm -= 1


# -- primitives ---------------------------------------------------------------------------------------------
class CoopLock:
    __slots__ = ('_locked', '__weakref__')

    def __init__(self):
        self._locked = False

    def _free(self):
        return not self._locked

    def acquire(self, blocking=True, timeout=-1):
        s = _managed()
        if s is not None and not s.frozen:
            s.prim('lock acquire')
            if not self._locked:
                self._locked = True
                return True
            if not blocking or timeout == 0:
                return False
            deadline = None if timeout is None or timeout < 0 else s.now + timeout
            if not s.block(self._free, deadline, 'waits for a lock'):
                return False
            self._locked = True
            return True
        if self._locked:
            if not blocking:
                return False
            raise RuntimeError('mc: unmanaged thread would block forever on a lock')
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False        # a release is a left mover: no scheduling point needed

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    def __repr__(self):
        return '<CoopLock %s>' % ('locked' if self._locked else 'unlocked')


class CoopRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        s = _managed()
        if self._owner == me:
            self._count += 1
            return True
        if s is not None and not s.frozen:
            s.prim('rlock acquire')
            if self._owner is not None:
                if not blocking or timeout == 0:
                    return False
                deadline = None if timeout is None or timeout < 0 else s.now + timeout
                if not s.block(self._free, deadline, 'waits for an rlock'):
                    return False
        elif self._owner is not None:
            if not blocking:
                return False
            raise RuntimeError('mc: unmanaged thread would block forever on an rlock')
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


def _t_start(self):
    s = _managed()
    if s is None:
        return _real_thread_start(self)
    if self._started.is_set():
        raise RuntimeError('threads can only be started once')
    s.spawn(self)


def _t_join(self, timeout=None):
    t = getattr(self, '_mc', None)
    s = _managed()
    if t is None or s is None:
        return _real_thread_join(self, timeout)
    if t is s.cur:
        raise RuntimeError('cannot join current thread')
    s.point('join')
    if t.status == DONE:
        return
    if timeout is not None and timeout <= 0:
        return
    deadline = None if timeout is None else s.now + timeout
    s.block(lambda: t.status == DONE, deadline, 'joins %s' % t.name)
    s.deliver()


def _t_is_alive(self):
    t = getattr(self, '_mc', None)
    if t is None:
        return _real_is_alive(self)
    return t.status != DONE


def _sleep(secs):
    s = _managed()
    if s is None or s.frozen:
        if current is not None:
            return
        return _real_sleep(secs)
    if secs <= 0:
        s.point('sleep')
        return
    s.block(None if False else (lambda: False), s.now + secs, 'sleeps')


_tick = [0]


def _vtime():
    s = current
    if s is None:
        return _real_time()
    _tick[0] += 1
    return EPOCH + s.now + _tick[0] * 1e-6


def _vmono():
    s = current
    if s is None:
        return _real_monotonic()
    return 1000.0 + s.now


def _interrupt_main(signum=2):
    s = current
    if s is None:
        return _real_interrupt_main(signum)
    if s.allow_interrupt:     # the time limit only guards exit callbacks; see boot.run_exit
        s.threads[0].interrupt = True


_real_interrupt_main = _thread.interrupt_main
_real_flock = None
flock_stats = {'calls': 0, 'waits': 0}


def _flock(fd, op):
    import fcntl
    s = _managed()
    if s is None or s.frozen:
        return _real_flock(fd, op)
    flock_stats['calls'] += 1
    s.point('flock')
    if op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
        return _real_flock(fd, op)
    got = []

    def attempt():
        if got:
            return True
        try:
            _real_flock(fd, op | fcntl.LOCK_NB)
        except OSError as e:
            if e.errno in (errno.EWOULDBLOCK, errno.EAGAIN, errno.EACCES):
                return False
            raise
        got.append(1)
        return True
    if attempt():
        return None
    flock_stats['waits'] += 1
    # Probing must not take the lock on behalf of a thread that is then not chosen: take it only when chosen.
    while True:
        def probe():
            try:
                _real_flock(fd, op | fcntl.LOCK_NB)
            except OSError as e:
                if e.errno in (errno.EWOULDBLOCK, errno.EAGAIN, errno.EACCES):
                    return False
                return True
            _real_flock(fd, fcntl.LOCK_UN)
            return True
        s.block(probe, None, 'waits for a file lock')
        if attempt():
            return None


_installed = False


def install():
    global _installed, _real_flock
    if _installed:
        return
    _installed = True
    import fcntl
    import queue
    _real_flock = fcntl.flock
    fcntl.flock = _flock
    threading.Lock = CoopLock
    threading._allocate_lock = CoopLock
    threading.RLock = CoopRLock
    threading._CRLock = CoopRLock
    _thread.allocate_lock = CoopLock
    threading.Thread.start = _t_start
    threading.Thread.join = _t_join
    threading.Thread.is_alive = _t_is_alive
    _thread.interrupt_main = _interrupt_main
    _time.sleep = _sleep
    _time.time = _vtime
    _time.monotonic = _vmono
    _time.perf_counter = _vmono
    threading._time = _vmono
    queue.time = _vmono
    queue.SimpleQueue = queue._PySimpleQueue
