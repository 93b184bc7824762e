"""Helpers for demonstrations: run another action while one thread is paused at its k-th line of the code under test."""
import os
import sys
import threading

ROOT = os.path.join(os.getcwd(), 'polog') + os.sep
sys.path.insert(0, os.getcwd())


def pause_at(k, first, second, patience=0.3, files=ROOT):
    """Run first() in a thread; when it reaches its k-th line of a file whose path contains `files`, run second() in another
    thread (waiting at most `patience` s for it), then let first() go on. Returns (was line k reached, did both end)."""
    count = [0]
    reached = []

    def other():
        t = threading.Thread(target=second, daemon=True)
        others.append(t)
        t.start()
        t.join(patience)

    others = []

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == k:
                reached.append(True)
                sys.settrace(None)
                other()
        return local

    def tracer(frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(ROOT) and files in name and not reached:
            return local
        return None

    def body():
        sys.settrace(tracer)
        try:
            first()
        finally:
            sys.settrace(None)

    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(20)
    for o in others:
        o.join(20)
    return bool(reached), not t.is_alive() and not any(o.is_alive() for o in others)


def check(condition, text='wrong'):
    if not condition:
        sys.stderr.write('FAILED: %s\n' % (text,))
        sys.stderr.flush()
        os._exit(1)


def done():
    sys.stdout.flush()
    os._exit(0)
