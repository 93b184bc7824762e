PROPERTY = 'C06'
NEEDS = 'two exception classes of the same name and suppression without subclasses'
BREAKS = 'The classes to suppress are compared by name: an unrelated exception of the same name is swallowed.'
EDITS = [
    ('core/utils/exception_is_suppressed.py',
     'type(exception) is suppressed_exception for',
     'type(exception).__name__ == suppressed_exception.__name__ for'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
config.set(level=0, suppress_exception_subclasses=False)
config.add_handlers(lambda record: None)
A = type('Error', (Exception,), {})
B = type('Error', (Exception,), {})
@log('x').suppress(A)
def function():
    raise B
try:
    function()
except B:
    done()
check(False, 'swallowed')
'''
