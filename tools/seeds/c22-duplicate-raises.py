PROPERTY = 'C22'
NEEDS = 'silent mode and an unknown keyword of the message editor'
BREAKS = '(see code)'
EDITS = [
    ('loggers/handle/abstract.py',
     '                self._maybe_raise(KeyError, f\'You cannot manually set the "{key}" field.\')\n                continue',
     '                self._maybe_raise(KeyError, f\'You cannot manually set the "{key}" field.\')'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.set(level=0, silent_internal_exceptions=True)
config.add_handlers(lambda record: seen.append(record['function']))
@log
def function():
    log.message('x', function='other')
function()
check(seen == ['function'], seen)
done()
'''
