PROPERTY = 'C05'
NEEDS = 'a handler that raises SystemExit or another BaseException'
BREAKS = 'Only subclasses of Exception are swallowed: a handler that raises SystemExit ends the program and the handlers after it are skipped.'
EDITS = [
    ('core/utils/exception_escaping.py',
     '        try:\n            return function(*args, **kwargs)\n        except:\n            pass',
     '        try:\n            return function(*args, **kwargs)\n        except Exception:\n            pass'),
]
DEMO = r'''
import race
from race import check, done
import sys
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers(a=lambda record: sys.exit(3), b=lambda record: seen.append(record['message']))
log('x', level=5)
check(seen == ['x'], seen)
done()
'''
