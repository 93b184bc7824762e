PROPERTY = 'C18'
NEEDS = 'several rules of which only a later one is due'
BREAKS = 'Only the first rule of the list decides about rotation.'
EDITS = [
    ('handlers/file/rotation/rotator.py',
     '            if rule.check():\n                return True\n        return False',
     '            return rule.check()\n        return False'),
]
DEMO = r'''
import race
from race import check, done
import os, tempfile
from polog import config, file_writer
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'log')
    a = file_writer(path, rotation='1 mb, 5 b >> ' + d + '/old', formatter=lambda record: 'abcdefgh')
    a({})
    a({})
    n = len(os.listdir(d + '/old')) if os.path.exists(d + '/old') else 0
check(n == 1, n)
done()
'''
