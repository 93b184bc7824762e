PROPERTY = 'C29'
NEEDS = 'a level name given a negative number, refused, and a record with that name'
BREAKS = 'A level is stored before its value is checked.'
EDITS = [
    ('config.py',
     "            if value < 0:\n                raise ValueError('The logging level cannot be less than zero.')\n            estimate_of_name = NameManager.is_possible_level_name(key)\n            if not estimate_of_name.possibility:\n                raise NameError(estimate_of_name.reason)\n            Levels.set(key, value)\n",
     "            estimate_of_name = NameManager.is_possible_level_name(key)\n            if not estimate_of_name.possibility:\n                raise NameError(estimate_of_name.reason)\n            Levels.set(key, value)\n            if value < 0:\n                raise ValueError('The logging level cannot be less than zero.')\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.set(level=0, silent_internal_exceptions=True)
config.levels(name=7)
config.add_handlers(lambda record: seen.append(record['level']))
try:
    config.levels(name=-7)
except ValueError:
    pass
log('text', level='name')
check(seen == [7], seen)
done()
'''
