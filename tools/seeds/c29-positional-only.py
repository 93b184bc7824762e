PROPERTY = 'C29'
NEEDS = 'a handler whose signature has arguments that can only be positional'
BREAKS = 'Positional-only arguments are not counted: a handler that cannot be called with one record is accepted and a working one is refused.'
EDITS = [
    ('core/utils/signature_matcher.py',
     "return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and",
     "return self.number_of_position_args == len([parameter for parameter in parameters if parameter.kind == parameter.POSITIONAL_OR_KEYWORD and"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
def good(record, /):
    seen.append(record['message'])
def bad(record, /, other):
    seen.append('impossible')
try:
    config.add_handlers(good=good)
except ValueError:
    check(False, 'a working handler is refused')
try:
    config.add_handlers(bad=bad)
    check(False, 'a handler that can never be called is accepted')
except ValueError:
    pass
log('hello')
check(seen == ['hello'], seen)
done()
'''
