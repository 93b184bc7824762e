PROPERTY = 'C31'
NEEDS = 'two threads delivering records at the same time, with a switch between the list and the last record'
BREAKS = 'The last record is set outside of the critical section, so it may be an older record than the last one of the list.'
EDITS = [
    ('handlers/memory/saver.py',
     "                self.all.append(log)\n                self.last = log\n",
     "                self.all.append(log)\n            self.last = log\n"),
]
DEMO = r'''
import race
from race import check, done
import sys
sys.path.insert(0, '.')
from polog.handlers.memory.saver import memory_saver
h = memory_saver()
k = 1
while True:
    h.clean()
    pass
    reached, ended = race.pause_at(k, lambda: h('one'), lambda: h('two'), files='handlers/memory')
    if not reached:
        break
    check(ended, 'blocked')
    check(h.last is (h.all[-1] if h.all else None), (k, h.all, h.last))
    k += 1
done()
'''
