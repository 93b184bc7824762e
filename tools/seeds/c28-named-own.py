PROPERTY = 'C28'
NEEDS = 'a class decorator with methods= naming an inherited method'
BREAKS = 'Methods named in methods= are looked for in the class itself only, inherited ones are not logged.'
EDITS = [
    ('loggers/auto/class_logger.py',
     "            methods = [x for x in methods]\n",
     "            methods = [x for x in methods if x in vars(Class) or not hasattr(Class, x)]\n"),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.add_handlers(lambda record: seen.append(record['function']))
class Parent:
    def inherited(self):
        pass
    def other(self):
        pass
@log(methods=('inherited', 'own'))
class Child(Parent):
    def own(self):
        pass
c = Child()
c.own(), c.inherited(), c.other(), Parent().inherited()
check(seen == ['own', 'inherited'], seen)
done()
'''
