PROPERTY = 'C11'
NEEDS = 'a failing decorated call that sets its own local variables text'
BREAKS = 'The automatic local variables are stored after the edits of the call were applied, and overwrite them.'
EDITS = [
    ('loggers/auto/function_logger.py',
     "                    args_dict['local_variables'] = get_locals_from_traceback()\n",
     ''),
    ('loggers/auto/function_logger.py',
     "                        args_dict['input_variables'] = input_variables\n                    _message._copy_context(args_dict)\n",
     "                        args_dict['input_variables'] = input_variables\n                    _message._copy_context(args_dict)\n                    args_dict['local_variables'] = get_locals_from_traceback()\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['local_variables']))
@log
def function(password):
    log.message('failed', vars='hidden')
    raise ZeroDivisionError
try:
    function('secret')
except ZeroDivisionError:
    pass
check(seen == ['hidden'], seen)
done()
'''
