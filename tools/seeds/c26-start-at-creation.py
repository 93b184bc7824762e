PROPERTY = 'C26'
NEEDS = 'a with-block entered some time after its logger was created'
BREAKS = 'The time and the duration of a block are counted from the creation of the object.'
EDITS = [
    ('loggers/finalizer.py',
     '        self.start_time = None\n',
     '        self.start_time = time()\n'),
    ('loggers/finalizer.py',
     "        self.start_time = time()\n        self.data['time']",
     "        self.data['time']"),
]
DEMO = r'''
import race
from race import check, done
import time
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['time_of_work']))
context = log('x')
time.sleep(0.5)
with context:
    pass
check(seen[0] < 0.4, seen)
done()
'''
