PROPERTY = 'C10'
NEEDS = 'two asyncio tasks, one of them inside a banned coroutine'
BREAKS = 'The ban is kept per thread instead of per context: it covers other tasks that run while a banned coroutine waits.'
EDITS = [
    ('unlog.py',
     "context = ContextVar('unlog')",
     'import threading\n\nclass LocalContext(threading.local):\n    value = None\n\n    def get(self, default=None):\n        return default if self.value is None else self.value\n\n    def set(self, value):\n        self.value = value\n\n\ncontext = LocalContext()'),
]
DEMO = r'''
import race
from race import check, done
import asyncio
from polog import log, config, unlog
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['message']))
@unlog
async def banned():
    await asyncio.sleep(0.05)
    log('banned', level=5)
async def free():
    await asyncio.sleep(0.01)
    log('free', level=5)
async def main():
    await asyncio.gather(banned(), free())
asyncio.run(main())
check(seen == ['free'], seen)
done()
'''
