PROPERTY = 'C11'
NEEDS = 'two decorated coroutines in concurrent tasks'
BREAKS = 'The edits of a record are kept per thread: concurrent tasks lose them or get those of another call.'
EDITS = [
    ('loggers/handle/message.py',
     "context = ContextVar('message')",
     'import threading\n\nclass LocalContext(threading.local):\n    value = None\n\n    def get(self, default=None):\n        return default if self.value is None else self.value\n\n    def set(self, value):\n        self.value = value\n\n\ncontext = LocalContext()'),
]
DEMO = r'''
import race
from race import check, done
import asyncio
from polog import log, config
seen = {}
config.set(level=0)
config.add_handlers(lambda record: seen.update({record['input_variables'][:40]: record.get('message')}))
@log
async def function(name):
    log.message('text ' + name)
    await asyncio.sleep(0.01)
async def main():
    await asyncio.gather(function('a'), function('b'))
asyncio.run(main())
check(sorted(str(x) for x in seen.values()) == ['text a', 'text b'], seen)
done()
'''
