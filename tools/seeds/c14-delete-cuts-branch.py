PROPERTY = 'C14'
NEEDS = 'deleting a handler whose name is also a prefix of other names'
BREAKS = 'The deletion of a name removes the whole branch below it.'
EDITS = [
    ('data_structures/trees/named_tree/tree.py',
     '    def delete_value(self):',
     '    def delete_value(self, with_childs=True):'),
    ('data_structures/trees/named_tree/tree.py',
     '        self.value = None\n\n    def get(',
     '        self.value = None\n        if with_childs:\n            self.childs = {}\n\n    def get('),
]
DEMO = r'''
import race
from race import check, done
from polog import log, config
seen = []
config.set(level=0)
config.add_handlers({'a': lambda r: seen.append('a'), 'a.b': lambda r: seen.append('a.b')})
config.delete_handlers('a')
log('x', level=5)
check(seen == ['a.b'], seen)
done()
'''
