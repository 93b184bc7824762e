PROPERTY = 'C22'
NEEDS = 'silent mode and a field of a wrong type'
BREAKS = 'In silent mode a field of a wrong type gets into the record.'
EDITS = [
    ('loggers/handle/abstract.py',
     '                    self._maybe_raise(ValueError, f\'The "{key}" argument is in the wrong format.\')\n                    continue\n            elif',
     '                    self._maybe_raise(ValueError, f\'The "{key}" argument is in the wrong format.\')\n            elif'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config, handle_log
seen = []
config.set(level=0, silent_internal_exceptions=True)
config.add_handlers(lambda record: seen.append(dict(record.items())))
handle_log('x', module=5)
check(len(seen) == 1 and 'module' not in seen[0], seen)
done()
'''
