PROPERTY = 'C17'
NEEDS = 'two handlers of one path in one process'
BREAKS = 'lockf locks belong to the process, so two handlers of one process do not exclude each other.'
EDITS = [
    ('handlers/file/locks/file_lock.py',
     'fcntl.flock(self.file.fileno(), fcntl.LOCK_EX)',
     'fcntl.lockf(self.file.fileno(), fcntl.LOCK_EX)'),
    ('handlers/file/locks/file_lock.py',
     'fcntl.flock(self.file.fileno(), fcntl.LOCK_UN)',
     'fcntl.lockf(self.file.fileno(), fcntl.LOCK_UN)'),
]
DEMO = r'''
import race
from race import check, done
import os, tempfile, threading, time
from polog.handlers.file.locks.double_lock import DoubleLock
with tempfile.TemporaryDirectory() as d:
    a = DoubleLock(os.path.join(d, 'log'), 'thread+file')
    b = DoubleLock(os.path.join(d, 'log'), 'thread+file')
    inside = []
    def other():
        with b:
            inside.append(1)
    with a:
        t = threading.Thread(target=other, daemon=True)
        t.start()
        t.join(0.5)
        both = bool(inside)
    t.join(5)
check(not both, 'both inside')
done()
'''
