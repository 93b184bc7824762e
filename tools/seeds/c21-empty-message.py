PROPERTY = 'C21'
NEEDS = 'an empty message'
BREAKS = 'An empty message counts as no message at all: the text of the expression is used instead.'
EDITS = [
    ('loggers/handle/smart_assert.py',
     '            if len(maybe_message) >= 1:\n',
     '            if len(maybe_message) >= 1 and maybe_message[0]:\n'),
]
DEMO = r'''
import race
from race import check, done
from polog import config, ass
config.set(level=0, debug_mode=True)
try:
    ass(0, '')
except AssertionError as e:
    check(e.args == ('',), e.args)
    done()
check(False)
'''
