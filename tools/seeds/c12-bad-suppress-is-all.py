PROPERTY = 'C12'
NEEDS = 'silent mode and an argument of suppress() that is not an ordinary exception class'
BREAKS = 'When none of the given classes is usable, everything is suppressed.'
EDITS = [
    ('loggers/finalizer.py',
     '        if not exceptions:\n            self.suppress_all = True\n\n        exceptions_to_use = []',
     '        exceptions_to_use = []'),
    ('loggers/finalizer.py',
     '        self.suppressed_exceptions.extend(exceptions_to_use)\n',
     '        if not exceptions_to_use:\n            self.suppress_all = True\n        self.suppressed_exceptions.extend(exceptions_to_use)\n'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
config.set(level=0, silent_internal_exceptions=True)
config.add_handlers(lambda record: None)
try:
    with log('x').suppress(KeyboardInterrupt):
        raise ValueError
except ValueError:
    done()
check(False, 'swallowed')
'''
