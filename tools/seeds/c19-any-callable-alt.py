PROPERTY = 'C19'
NEEDS = 'a fallback with a wrong signature'
BREAKS = 'A fallback that cannot be called with one record is accepted.'
EDITS = [
    ('handlers/abstract/base.py',
     "        'alt': lambda x: x is None or SignatureMatcher.is_handler(x),",
     "        'alt': lambda x: x is None or callable(x),"),
]
DEMO = r'''
import race
from race import check, done
from polog import file_writer
try:
    file_writer(alt=lambda a, b: None)
except ValueError:
    done()
check(False, 'accepted')
'''
