PROPERTY = 'C05'
NEEDS = 'an extractor that raises a BaseException such as SystemExit'
BREAKS = 'Only subclasses of Exception raised by an extractor are swallowed.'
EDITS = [
    ('core/log_item.py',
     '                    data[name] = value\n                except:\n                    pass',
     '                    data[name] = value\n                except Exception:\n                    pass'),
]
DEMO = r'''
import race
from race import check, done
import sys
from polog import log, config, field
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['message']))
config.add_fields(bad=field(lambda record: sys.exit(2)))
@log(message='x')
def function():
    return 5
try:
    check(function() == 5)
except BaseException as e:
    check(False, repr(e))
check(seen == ['x'], seen)
done()
'''
