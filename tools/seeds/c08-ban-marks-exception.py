PROPERTY = 'C08'
NEEDS = 'an exception that passes a decorated call inside a ban and then a decorated call outside it'
BREAKS = 'The exception counts as recorded although the inner decorator was silenced by a ban, so the outer one does not record it either.'
EDITS = [
    ('loggers/auto/function_logger.py',
     "        if not unlog.get_unlog_status():\n            if vars(exc)",
     "        if unlog.get_unlog_status():\n            self.mark_exception(exc)\n        else:\n            if vars(exc)"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config, unlog
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['function']))
@log
def inner():
    raise ZeroDivisionError
@unlog
def banned():
    inner()
@log
def outer():
    banned()
try:
    outer()
except ZeroDivisionError:
    pass
check(seen == ['outer'], seen)
done()
'''
