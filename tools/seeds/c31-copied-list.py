PROPERTY = 'C31'
NEEDS = 'two threads that write at the same time, one of them stopped in the middle of one line'
BREAKS = 'A record is added to a copy of the list and the critical section is gone, all in one line: of two records written at the same time one is lost.'
EDITS = [
    ('handlers/memory/saver.py',
     "            with self.all_semaphore:\n                self.all.append(log)\n                self.last = log\n",
     "            self.all, self.last = list(self.all) + [log], log\n"),
]
DEMO = r'''
import sys
import threading
sys.path.insert(0, '.')
from polog.handlers.memory.saver import memory_saver
sys.setswitchinterval(1e-6)
h = memory_saver()
bad = 0
for attempt in range(30):
    h.clean()

    def write():
        for i in range(300):
            h(i)
    ts = [threading.Thread(target=write) for _ in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    bad += len(h.all) != 2400
print(bad, 'of 30 attempts lost records')
sys.exit(1 if bad else 0)
'''
