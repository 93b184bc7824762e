PROPERTY = 'C28'
NEEDS = 'a class decorated as a whole and then once more with methods='
BREAKS = 'Methods that are not chosen are restored only if they are inherited: a class that was decorated before goes on logging all its own methods.'
EDITS = [
    ('loggers/auto/class_logger.py',
     "            result = tuple([x for x in all if x not in methods])\n",
     "            result = tuple([x for x in all if x not in methods and (len(methods) == 1 or x not in vars(Class))])\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.add_handlers(lambda record: seen.append(record['function']))
@log(methods=('one', 'two'))
@log
class C:
    def one(self):
        pass
    def two(self):
        pass
    def three(self):
        pass
c = C()
c.one(), c.two(), c.three()
check(seen == ['one', 'two'], seen)
done()
'''
