PROPERTY = 'C17'
NEEDS = 'an operation that lasts longer than a second'
BREAKS = 'A thread that has waited a second for the lock goes on without it.'
EDITS = [
    ('handlers/file/locks/thread_lock.py',
     '        self.lock.acquire()',
     '        self.lock.acquire(timeout=1)'),
    ('handlers/file/locks/thread_lock.py',
     '        self.lock.release()',
     '        if self.lock.locked():\n            self.lock.release()'),
]
DEMO = r'''
import race
from race import check, done
import threading, time
from polog.handlers.file.locks.double_lock import DoubleLock
lock = DoubleLock(None, 'thread')
inside = []
def other():
    with lock:
        inside.append(1)
with lock:
    t = threading.Thread(target=other, daemon=True)
    t.start()
    t.join(3)
    both = bool(inside)
t.join(5)
check(not both, 'both inside')
done()
'''
