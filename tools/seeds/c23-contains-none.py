PROPERTY = 'C23'
NEEDS = 'a field whose value is None'
BREAKS = 'A field with the value None counts as absent for the operator in.'
EDITS = [
    ('core/log_item.py',
     '            return key in self.fields\n',
     '            return self.fields.get(key) is not None\n'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config, field
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(('x' in record, 'x' in list(record))))
config.add_fields(x=field(lambda record: None))
log('a', level=4)
check(seen == [(True, True)], seen)
done()
'''
