PROPERTY = 'C31'
NEEDS = 'a record delivered by one thread while another cleans the handler'
BREAKS = 'Cleaning takes the critical section for the list only: a record that is delivered before the last one is forgotten stays in the list, but is not the last.'
EDITS = [
    ('handlers/memory/saver.py',
     "            self.all = []\n            self.last = None\n",
     "            self.all = []\n        self.last = None\n"),
]
DEMO = r'''
import race
from race import check, done
import sys
sys.path.insert(0, '.')
from polog.handlers.memory.saver import memory_saver
h = memory_saver()
k = 1
while True:
    h.clean()
    h('old')
    reached, ended = race.pause_at(k, lambda: h.clean(), lambda: h('new'), files='handlers/memory')
    if not reached:
        break
    check(ended, 'blocked')
    check(h.last is (h.all[-1] if h.all else None), (k, h.all, h.last))
    k += 1
done()
'''
