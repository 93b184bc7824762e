"""
Parallel exhaustive exploration of all executions of a scenario with at most `bound` deviations from the default
schedule (delay-bounded stateless model checking).  Every execution runs in its own forked child of a pristine,
already imported process, so executions cannot influence each other.
"""
import gc
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time
import traceback
from collections import deque

from mc import sched

NPROC = max(1, min(8, os.cpu_count() or 1))
_rt = sched._real_monotonic
CHILD_TIMEOUT = 150


def _read_exact(fd, n):
    buf = b''
    while len(buf) < n:
        c = os.read(fd, n - len(buf))
        if not c:
            return None
        buf += c
    return buf


def send(fd, obj):
    data = pickle.dumps(obj, 4)
    data = struct.pack('<I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv(fd):
    h = _read_exact(fd, 4)
    if h is None:
        return None
    return pickle.loads(_read_exact(fd, struct.unpack('<I', h)[0]))


def quiet_io():
    null = os.open('/dev/null', os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)


def in_child(fn, timeout=CHILD_TIMEOUT):
    """Run fn() in a forked child; returns ('ok', value) | ('hang', text) | ('crash', text) | ('error', tb)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if not os.environ.get('MC_DEBUG'):
                quiet_io()
            gc.disable()
            try:
                out = ('ok', fn())
            except BaseException:     # noqa
                out = ('error', traceback.format_exc())
            try:
                data = pickle.dumps(out, 4)
            except Exception:
                data = pickle.dumps(('error', 'unpicklable result: %r' % (out,)), 4)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:         # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = _rt() + timeout
    hung = False
    while True:
        left = end - _rt()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hung = True
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ('hang', 'no result after %d s' % timeout)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        return ('crash', 'child ended with status %r and no result' % st)
    return pickle.loads(data)


class Scenario:
    """
    name       unique name
    main()     runs managed; returns a picklable observation
    check(obs, s) -> list of violation strings (runs unmanaged, in the child)
    """
    name = '?'
    trace = ()              # source path prefixes whose lines are scheduling points
    exclude = ()
    timeouts = False
    opcodes = False
    max_steps = 60000
    horizon = 400.0
    patience = 12
    ok_outcomes = (None,)   # outcomes that are not violations by themselves

    def prepare(self):
        pass

    def main(self):
        raise NotImplementedError

    def check(self, obs, s):
        return []

    def stuck(self, s):
        """Violations for an execution that did not terminate normally."""
        return ['the execution does not terminate: %s (%s)' % (s.outcome, s.outcome_detail)]


def execute(scn, dev, record=False):
    """One execution in the current (child) process."""
    sched._tick[0] = 0
    s = sched.Sched(dict(dev), scn.trace, scn.exclude, scn.max_steps, scn.horizon, scn.timeouts, scn.opcodes, record, scn.patience)
    scn.prepare()
    err = None
    obs = None
    try:
        obs = s.run(scn.main)
    except BaseException:     # noqa
        err = traceback.format_exc()
    viol = []
    if s.outcome == 'divergence':
        return dict(kind='divergence', detail=s.outcome_detail)
    if s.taken != len(dev):
        return dict(kind='divergence', detail='only %d of %d deviations were reached' % (s.taken, len(dev)))
    if err is not None:
        viol.append('the program itself failed: ' + err)
    elif s.outcome is not None:
        viol.extend(scn.stuck(s))
    else:
        viol.extend(scn.check(obs, s))
    for name, e in s.thread_errors():
        if e is not None and not isinstance(e, sched._Kill) and err is None:
            viol.append('thread %s died: %r' % (name, e))
    return dict(kind='run', options=s.options, steps=s.steps, viol=viol, outcome=s.outcome,
                obs=repr(obs)[:400], threads=len(s.threads), log=s.log if record else None)


class Result:
    def __init__(self, name):
        self.name = name
        self.schedules = 0
        self.steps = 0
        self.nodes = 0
        self.max_choice = 0
        self.observations = {}
        self.violations = []       # (deviations, [text])
        self.divergences = []
        self.replays = 0
        self.complete = True
        self.bound = None
        self.completed_bound = -1
        self.wall = 0.0

    def as_dict(self):
        return dict(scenario=self.name, schedules=self.schedules, transitions=self.steps,
                    max_choice_points=self.max_choice, distinct_observations=len(self.observations),
                    deviation_bound=self.bound, completed_bound=self.completed_bound,
                    complete=self.complete, replays_checked=self.replays,
                    divergences=len(self.divergences), violations=len(self.violations), wall_s=round(self.wall, 1))


def pin(i):
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[i % len(cpus)]})
    except OSError:
        pass


def _worker(scn, rfd, wfd, scratch, index=0):
    pin(index)
    gc.collect()
    gc.freeze()
    os.makedirs(scratch, exist_ok=True)
    os.environ['MC_SCRATCH'] = scratch
    while True:
        batch = recv(rfd)
        if batch is None:
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(0)
        out = []
        for dev, want, verify in batch:
            d = os.path.join(scratch, 'x')
            os.makedirs(d, exist_ok=True)
            os.environ['MC_DIR'] = d
            res = in_child(lambda: execute(scn, dev))
            if verify and res[0] == 'ok' and res[1]['kind'] == 'run':
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d, exist_ok=True)
                again = in_child(lambda: execute(scn, dev))
                same = again[0] == 'ok' and again[1].get('options') == res[1]['options'] \
                    and again[1].get('viol') == res[1]['viol']
                if not same:
                    res = ('ok', dict(kind='divergence', detail='two executions of the same schedule differ'))
            shutil.rmtree(d, ignore_errors=True)
            if res[0] == 'ok' and not want and res[1].get('kind') == 'run':
                res[1]['noptions'] = len(res[1]['options'])
                res[1]['options'] = None
            out.append((dev, res))
        send(wfd, out)


def explore(scn, bound=1, time_limit=600, stop_at=1, verify_every=101, nproc=None, from_choice=0):
    """Enumerate all executions of scn with at most `bound` deviations."""
    nproc = nproc or NPROC
    res = Result(scn.name)
    res.bound = bound
    t0 = _rt()
    if scn.trace:
        sched.prewarm(scn.trace)
    base = os.path.join(os.environ.get('MC_TMP', '/tmp'), 'mc-%d' % os.getpid())
    os.makedirs(base, exist_ok=True)
    workers = []
    for i in range(nproc):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for (_, a, b) in workers:
                os.close(a)
                os.close(b)
            try:
                _worker(scn, r1, w2, os.path.join(base, '%s-%d' % (scn.name.replace('/', '_'), i)), i)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        workers.append((pid, w1, r2))
    levels = [deque() for _ in range(bound + 1)]
    levels[0].append(())
    outstanding = {}
    pend_level = [0] * (bound + 1)
    idle = list(range(nproc))
    n_sent = 0
    stop = False
    try:
        while True:
            # dispatch, lowest level first
            while idle and not stop:
                batch = []
                total = sum(len(q) for q in levels)
                k = 1 if total < nproc * 4 else (8 if total < 4000 else 24)
                for lv in range(bound + 1):
                    while levels[lv] and len(batch) < k:
                        dev = levels[lv].popleft()
                        n_sent += 1
                        batch.append((dev, len(dev) < bound, n_sent % verify_every == 1))
                        pend_level[lv] += 1
                    if batch:
                        break
                if not batch:
                    break
                w = idle.pop()
                outstanding[w] = batch
                send(workers[w][1], batch)
            if not outstanding:
                break
            rl, _, _ = select.select([workers[w][2] for w in outstanding], [], [], 5.0)
            for fd in rl:
                w = next(i for i in outstanding if workers[i][2] == fd)
                out = recv(fd)
                batch = outstanding.pop(w)
                if out is None:
                    raise RuntimeError('exploration worker died')
                idle.append(w)
                for dev, r in out:
                    pend_level[len(dev)] -= 1
                    if r[0] != 'ok':
                        # the child itself hung or crashed: real code blocked outside the scheduler, or harness error
                        if r[0] == 'error':
                            raise RuntimeError('harness error in %s %r: %s' % (scn.name, dev, r[1]))
                        res.schedules += 1
                        res.violations.append((dev, ['the process %s: %s' % r]))
                        continue
                    d = r[1]
                    if d['kind'] == 'divergence':
                        res.divergences.append((dev, d['detail']))
                        continue
                    res.schedules += 1
                    res.steps += d['steps']
                    n = len(d['options']) if d['options'] is not None else d.get('noptions', 0)
                    res.max_choice = max(res.max_choice, n)
                    res.nodes += n - (dev[-1][0] if dev else 0)
                    if len(res.observations) < 200:
                        res.observations.setdefault(d['obs'], dev)
                    if d['viol']:
                        res.violations.append((dev, d['viol']))
                        continue
                    if d['options'] is not None and len(dev) < bound:
                        start = (dev[-1][0] + 1) if dev else from_choice
                        opts = d['options']
                        lv = len(dev) + 1
                        for i in range(start, len(opts)):
                            for alt in range(1, opts[i]):
                                levels[lv].append(dev + ((i, alt),))
            for lv in range(bound + 1):
                if not stop and res.completed_bound < lv and all(not levels[x] and not pend_level[x] for x in range(lv + 1)):
                    res.completed_bound = lv
            if len(res.violations) >= stop_at:
                stop = True
                for q in levels:
                    if q:
                        res.complete = False
                    q.clear()
            if _rt() - t0 > time_limit and any(levels):
                res.complete = False
                for q in levels:
                    q.clear()
                stop = True
        if res.complete:
            res.completed_bound = bound
    finally:
        for pid, w, r in workers:
            os.close(w)
        for pid, w, r in workers:
            os.waitpid(pid, 0)
            os.close(r)
        shutil.rmtree(base, ignore_errors=True)
    res.replays = (n_sent + verify_every - 1) // verify_every
    res.wall = _rt() - t0
    return res
