PROPERTY = 'C27'
NEEDS = 'an object that has decorated a function and is entered as a block afterwards'
BREAKS = 'An object that was used as a decorator can be used again as a block.'
EDITS = [
    ('loggers/finalizer.py',
     '        """\n        Вход в контекстный менеджер.\n        """\n        if self.used:\n            raise IncorrectUseOfTheContextManagerError()\n        self.used = True\n\n        if self.entered:',
     '        """\n        Вход в контекстный менеджер.\n        """\n        self.used = True\n\n        if self.entered:'),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.add_handlers(lambda record: seen.append(record['message']))
x = log('text')
@x
def f():
    pass
try:
    with x:
        pass
    check(False, 'could be entered')
except Exception:
    pass
check(seen == [], seen)
done()
'''
