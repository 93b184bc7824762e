"""
Process bootstrap shared by every check: deterministic interpreter flags, cooperative primitives installed before
polog is imported, and the assertion that the code under test is /repo's working tree.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
POLOG = '/repo/polog'


def reexec():
    if os.environ.get('MC_BOOTED') == '1':
        return
    env = dict(os.environ)
    env['MC_BOOTED'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['TZ'] = 'MCT-05:30'      # the clock of a check is never in UTC: local and universal time must not be mixed up
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    # Never read byte code that an earlier tree left in /repo: point the cache at a folder that does not exist.
    env['PYTHONPYCACHEPREFIX'] = '/tmp/mc-no-such-cache-%d' % os.getpid()
    env.pop('PYTHONPATH', None)
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py, '-B'] + sys.argv, env)


exit_callbacks = []


def _capture_exit():
    """Exit callbacks registered from now on are kept in exit_callbacks; checks run them with run_exit()."""
    import atexit

    def register(func, *args, **kwargs):
        exit_callbacks.append((func, args, kwargs))
        return func

    def unregister(func):
        exit_callbacks[:] = [x for x in exit_callbacks if x[0] != func]
    atexit.register = register
    atexit.unregister = unregister


def run_exit():
    """What the interpreter does with exit callbacks: last registered first; errors are reported, not raised."""
    from mc import sched
    errors = []
    while exit_callbacks:
        func, args, kwargs = exit_callbacks.pop()
        s = sched.current
        if s is not None:
            s.allow_interrupt = True
        try:
            func(*args, **kwargs)
        except BaseException as e:     # noqa
            errors.append(repr(e))
        finally:
            if s is not None:
                s.allow_interrupt = s.threads[0].interrupt = False
    return errors


def load(coop=True):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if coop:
        from mc import sched
        sched.install()
        import logging, queue, asyncio, multiprocessing, concurrent.futures   # noqa: their exit hooks stay real
        _capture_exit()
    import polog
    assert list(polog.__path__) == [POLOG], polog.__path__
    return polog
