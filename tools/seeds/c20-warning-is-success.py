PROPERTY = 'C20'
NEEDS = 'a record of the standard logger with exactly the level WARNING'
BREAKS = 'Success is derived wrongly for the level 30.'
EDITS = [
    ('core/stores/settings/actions/integration_with_logging.py',
     'if record.levelno >= 30:',
     'if record.levelno > 30:'),
]
DEMO = r'''
import race
from race import check, done
import logging
from polog import config
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['success']))
logging.warning('x')
check(seen == [False], seen)
done()
'''
