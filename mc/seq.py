"""
Parallel exhaustive enumeration of cases (operation sequences, configurations, fault assignments) on the real code.

Every case runs in a forked child of a pristine, already imported process (or `batch` cases per child, for code without
global state). Managed cases run under the controlled scheduler with its default schedule, so that code with worker threads is deterministic and a
deadlock is decided instead of guessed.
"""
import gc
import os
import select
import shutil
import traceback

from mc import sched
from mc.explore import NPROC, _rt, in_child, pin, recv, send


class Case:
    """What a case function fills in."""

    def __init__(self):
        self.viol = []
        self.ops = 0
        self.states = set()
        self.trivial = False

    def op(self, n=1):
        self.ops += n

    def state(self, *key):
        self.states.add(hash(key) if not isinstance(key, str) else key)

    def bad(self, text, *args):
        self.viol.append(text % args if args else text)

    def eq(self, got, want, what):
        if got != want:
            self.bad('%s: got %s, expected %s', what, short(got), short(want))
            return False
        return True


def short(x, n=600):
    try:
        r = repr(x)
    except BaseException as e:    # noqa
        r = '<unprintable %s>' % type(e).__name__
    return r if len(r) <= n else r[:n] + '...'


def run_one(fn, case, managed, horizon=2000.0):
    c = Case()
    if not managed:
        try:
            fn(c, case)
        except BaseException:    # noqa
            c.bad('the case itself failed: %s', traceback.format_exc(limit=-6))
        return finish(c)
    s = sched.Sched({}, (), (), 400000, horizon)
    sched._tick[0] = 0
    try:
        s.run(lambda: fn(c, case))
    except BaseException:        # noqa
        c.bad('the case itself failed: %s', traceback.format_exc(limit=-6))
    if s.outcome is not None:
        c.bad('the execution does not terminate: %s (%s)', s.outcome, s.outcome_detail)
    for name, e in s.thread_errors():
        if name != 'main':
            c.bad('thread %s died: %r', name, e)
    return finish(c)


def finish(c):
    return dict(viol=c.viol, ops=c.ops, states=list(c.states), trivial=c.trivial)


def _worker(fn, managed, timeout, rfd, wfd, scratch, index):
    pin(index)
    gc.collect()
    gc.freeze()
    os.makedirs(scratch, exist_ok=True)
    d = os.path.join(scratch, 'x')
    while True:
        batch = recv(rfd)
        if batch is None:
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(0)
        os.makedirs(d, exist_ok=True)
        os.environ['MC_DIR'] = d
        progress = []

        def go():
            out = []
            for i, case in batch:
                sub = os.path.join(d, str(i))
                os.makedirs(sub)
                os.environ['MC_DIR'] = sub
                out.append((i, run_one(fn, case, managed)))
                shutil.rmtree(sub, ignore_errors=True)
            return out
        res = in_child(go, timeout)
        shutil.rmtree(d, ignore_errors=True)
        if res[0] == 'ok':
            out = res[1]
        elif len(batch) == 1:
            i, case = batch[0]
            out = [(i, dict(viol=['the process %s: %s' % res], ops=0, states=[], trivial=False))]
        else:
            # find the culprit: one child per case
            out = []
            for i, case in batch:
                os.makedirs(d, exist_ok=True)
                os.environ['MC_DIR'] = d
                r = in_child(lambda: run_one(fn, case, managed), timeout)
                shutil.rmtree(d, ignore_errors=True)
                out.append((i, r[1] if r[0] == 'ok' else
                            dict(viol=['the process %s: %s' % r], ops=0, states=[], trivial=False)))
        send(wfd, out)


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.cases = 0
        self.nontrivial = 0
        self.ops = 0
        self.states = set()
        self.violations = []
        self.complete = True
        self.total = None
        self.wall = 0.0

    def as_dict(self):
        return dict(family=self.name, cases=self.cases, nontrivial=self.nontrivial, operations=self.ops,
                    distinct_states=len(self.states), complete=self.complete, violations=len(self.violations),
                    wall_s=round(self.wall, 1))


def enumerate_cases(name, cases, fn, managed=True, batch=1, stop_at=3, time_limit=600, nproc=None, timeout=60):
    nproc = nproc or NPROC
    res = CaseResult(name)
    t0 = _rt()
    base = os.path.join(os.environ.get('MC_TMP', '/tmp'), 'mc-%d-s' % os.getpid())
    os.makedirs(base, exist_ok=True)
    workers = []
    for i in range(nproc):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for (_, a, b) in workers:
                os.close(a)
                os.close(b)
            try:
                _worker(fn, managed, timeout, r1, w2, os.path.join(base, str(i)), i)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        workers.append((pid, w1, r2))
    it = enumerate(cases)
    idle = list(range(nproc))
    out_by = {}
    keep = {}
    stop = False
    try:
        while True:
            while idle and not stop:
                b = []
                # a few isolated cases per message keep the pipe overhead low, they still run in one child each if batch == 1
                for i, case in it:
                    b.append((i, case))
                    if len(b) >= batch:
                        break
                if not b:
                    stop = True
                    break
                w = idle.pop()
                out_by[w] = b
                send(workers[w][1], b)
            if not out_by:
                break
            rl, _, _ = select.select([workers[w][2] for w in out_by], [], [], 5.0)
            for fd in rl:
                w = next(i for i in out_by if workers[i][2] == fd)
                out = recv(fd)
                b = dict(out_by.pop(w))
                if out is None:
                    raise RuntimeError('enumeration worker died in %s' % name)
                idle.append(w)
                for i, d in out:
                    res.cases += 1
                    res.ops += d['ops']
                    if not d['trivial']:
                        res.nontrivial += 1
                    if len(res.states) < 2000000:
                        res.states.update(d['states'])
                    if d['viol']:
                        res.violations.append((b[i], d['viol']))
            if not stop and len(res.violations) >= stop_at:
                stop = True
                res.complete = False
            if not stop and _rt() - t0 > time_limit:
                stop = True
                res.complete = False
    finally:
        for pid, w, r in workers:
            os.close(w)
        for pid, w, r in workers:
            os.waitpid(pid, 0)
            os.close(r)
        shutil.rmtree(base, ignore_errors=True)
    res.wall = _rt() - t0
    return res
