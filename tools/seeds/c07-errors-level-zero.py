PROPERTY = 'C07'
NEEDS = 'errors_level=0'
BREAKS = 'An explicit error level 0 counts as not given.'
EDITS = [
    ('core/utils/get_errors_level.py',
     '    if error_level_in_function is not None:',
     '    if error_level_in_function:'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['level']))
@log(errors_level=0)
def function():
    raise ZeroDivisionError
try:
    function()
except ZeroDivisionError:
    pass
check(seen == [0], seen)
done()
'''
