PROPERTY = 'C30'
NEEDS = 'an exception passing a decorator whose record is filtered out by the level'
BREAKS = 'The frame of the decorator is cut out of the traceback only if the exception has been recorded.'
EDITS = [
    ('core/utils/cut_traceback.py',
     "        if store['traceback_cutting']:\n            tp, exc, tb = exc_info()\n",
     "        tp, exc, tb = exc_info()\n        if store['traceback_cutting'] and 'checked_by_polog' in vars(exc):\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
import traceback
config.add_handlers(lambda record: None)
@log
def f():
    raise ValueError
for level in (0, 100):
    config.set(level=level)
    try:
        f()
    except ValueError as e:
        names = [x.name for x in traceback.extract_tb(e.__traceback__)]
    check(names == ['<module>', 'f'], names)
done()
'''
