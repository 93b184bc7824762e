PROPERTY = 'C21'
NEEDS = 'the policy "all" and then back to "if_debug"'
BREAKS = 'With the policy if_debug a record is written in debug mode too.'
EDITS = [
    ('core/stores/settings/settings_store.py',
     'lambda debug_mode, expression_result: not debug_mode and not expression_result,',
     'lambda debug_mode, expression_result: not (debug_mode and expression_result),'),
]
DEMO = r'''
import race
from race import check, done
import time
from polog import config, ass
seen = []
config.set(level=0, debug_mode=True, smart_assert_politic='if_debug')
config.add_handlers(lambda record: seen.append(1))
try:
    ass(False, 'x')
except AssertionError:
    pass
check(seen == [], seen)
done()
'''
