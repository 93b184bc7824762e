PROPERTY = 'C30'
NEEDS = 'a decorated function that fails before its own frame exists: wrong arguments, or a function written in C'
BREAKS = 'The frame of the decorator is cut out only if there is a deeper frame, so an error in the arguments of the call shows the internals of the logger.'
EDITS = [
    ('core/utils/cut_traceback.py',
     "        if store['traceback_cutting']:\n",
     "        if store['traceback_cutting'] and exc_info()[2].tb_next is not None:\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
import traceback
config.add_handlers(lambda record: None)
@log
def f(a):
    raise ValueError
for args, want in (((1,), ['<module>', 'f']), ((), ['<module>']), ((1, 2), ['<module>'])):
    try:
        f(*args)
    except Exception as e:
        names = [x.name for x in traceback.extract_tb(e.__traceback__)]
    check(names == want, (args, names))
done()
'''
