PROPERTY = 'C26'
NEEDS = 'a decorated function called by another decorated function which fails'
BREAKS = 'The traceback of a nested failing call misses its first own line.'
EDITS = [
    ('core/utils/get_traceback.py',
     '        trace_list = trace_list[cut_string_at_begin:]',
     '        trace_list = trace_list[cut_string_at_begin:] if len(trace_list) < 3 else trace_list[cut_string_at_begin + 1:]'),
]
DEMO = r'''
import race
from race import check, done
import json
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(json.loads(record['traceback'])))
def deep():
    raise ZeroDivisionError
def middle():
    deep()
@log
def function():
    middle()
try:
    function()
except ZeroDivisionError:
    pass
check(len(seen[0]) == 3 and 'in function' in seen[0][0], seen)
done()
'''
