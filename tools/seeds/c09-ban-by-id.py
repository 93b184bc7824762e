PROPERTY = 'C09'
NEEDS = 'a banned function that was garbage collected, then a new one in the same memory'
BREAKS = 'The ban is remembered by id: a new function that gets the memory of a collected banned one is silently not logged.'
EDITS = [
    ('core/stores/registering_functions.py',
     'forbidden_to_decorate = weakref.WeakSet()',
     'forbidden_to_decorate = set()'),
    ('core/stores/registering_functions.py',
     'self.forbidden_to_decorate.add(original_function)',
     'self.forbidden_to_decorate.add(id(original_function))'),
    ('core/stores/registering_functions.py',
     'result = func in self.forbidden_to_decorate',
     'result = id(func) in self.forbidden_to_decorate'),
]
DEMO = r'''
import race
from race import check, done
import gc
from polog import log, config, unlog
seen = []
config.set(level=0)
config.add_handlers(lambda record: seen.append(1))
for i in range(300):
    unlog(lambda: None)
    gc.collect()
    n = len(seen)
    def f():
        return 5
    log(f)()
    check(len(seen) == n + 1, 'the record number %d is missing' % i)
done()
'''
