PROPERTY = 'C07'
NEEDS = 'a level name that is redefined after the decoration'
BREAKS = 'The level name of a decorator is resolved once, when the function is decorated.'
EDITS = [
    ('loggers/auto/function_logger.py',
     "        if level is not None and not isinstance(level, int) and not isinstance(level, str):\n            raise",
     "        if isinstance(level, str):\n            level = Levels.levels.get(level, level)\n        elif level is not None and not isinstance(level, int):\n            raise"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.levels(mine=5)
config.set(level=0)
config.add_handlers(lambda record: seen.append(record['level']))
@log(level='mine')
class Class:
    def method(self):
        pass
config.levels(mine=8)
Class().method()
check(seen == [8], seen)
done()
'''
