PROPERTY = 'C04'
NEEDS = 'a backlog in the queue of the single worker'
BREAKS = 'The queue hands out the newest record first.'
EDITS = [
    ('core/engine/real_engines/multithreaded/pool.py',
     'from queue import Queue',
     'from queue import LifoQueue as Queue'),
]
DEMO = r'''
import race
from race import check, done
import threading, time
from polog import log, config
seen = []
go = threading.Event()
def handler(record):
    if record['message'] == 'gate':
        go.wait()
    seen.append(record['message'])
config.set(level=0, pool_size=1)
config.add_handlers(handler)
log('gate')
time.sleep(0.3)
for x in 'abc':
    log(x)
go.set()
time.sleep(1)
check(seen == ['gate', 'a', 'b', 'c'], seen)
done()
'''
