PROPERTY = 'C02'
NEEDS = 'a handler that logs while another thread changes the number of workers'
BREAKS = 'Reading the level takes the lock that a reload of the engine holds: a worker whose handler logs waits for the reload, which waits for the worker.'
EDITS = [
    ('core/stores/settings/settings_store.py',
     "                'max_queue_size',\n                'started',\n            ),\n        ),\n        'max_queue_size'",
     "                'max_queue_size',\n                'started',\n                'level',\n            ),\n        ),\n        'max_queue_size'"),
    ('core/stores/settings/settings_store.py',
     "        'level': SettingPoint(\n            0,\n            proves={\n                'the value can be a string or an integer greater than or equal to zero': lambda x: (isinstance(x, int) and x >= 0) or isinstance(x, str),\n            },\n            converter=Levels.get,\n        ),",
     "        'level': SettingPoint(\n            0,\n            proves={\n                'the value can be a string or an integer greater than or equal to zero': lambda x: (isinstance(x, int) and x >= 0) or isinstance(x, str),\n            },\n            converter=Levels.get,\n            read_lock=True,\n        ),"),
]
DEMO = r'''
import race
from race import check, done
import threading, time
from polog import log, config
inside = threading.Event()
def handler(record):
    if record['message'] == 'first':
        inside.set()
        time.sleep(1)
        log('second')
config.set(level=0, pool_size=1)
config.add_handlers(handler)
log('first')
inside.wait()
t = threading.Thread(target=lambda: config.set(pool_size=2), daemon=True)
t.start()
t.join(10)
check(not t.is_alive(), 'deadlock')
done()
'''
