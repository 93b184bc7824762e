PROPERTY = 'C12'
NEEDS = 'a field that is set inside the block to a false value'
BREAKS = 'A false value set inside the block does not override the one given at entry.'
EDITS = [
    ('loggers/finalizer.py',
     '        self.data.update(new_data)',
     '        self.data.update({key: value for key, value in new_data.items() if value})'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['count']))
with log('x', count=3) as context:
    context(count=0)
check(seen == [0], seen)
done()
'''
