PROPERTY = 'C01'
NEEDS = 'a handler that logs while the engine is being reloaded'
BREAKS = 'A worker looks at its stop flag before the queue, so a record that a handler logs after the flag was set is never handled.'
EDITS = [
    ('core/engine/real_engines/multithreaded/worker.py',
     "                    try:\n                        log = self.queue.get(timeout=self.settings['time_quant'])\n                        break\n                    except Empty:\n                        if self.stopped:\n                            stopped_from_flag = True\n                            break\n",
     "                    if self.stopped:\n                        stopped_from_flag = True\n                        break\n                    try:\n                        log = self.queue.get(timeout=self.settings['time_quant'])\n                        break\n                    except Empty:\n                        pass\n"),
]
DEMO = r'''
import race
from race import check, done
import threading, time
from polog import log, config
seen = []
inside = threading.Event()
def handler(record):
    seen.append(record['message'])
    if record['message'] == 'first':
        inside.set()
        time.sleep(1)
        log('second')
config.set(level=0, pool_size=1)
config.add_handlers(handler)
log('first')
inside.wait()
config.set(pool_size=2)
time.sleep(1)
check(seen == ['first', 'second'], seen)
done()
'''
