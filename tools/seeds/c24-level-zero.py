PROPERTY = 'C24'
NEEDS = 'a record of level 0'
BREAKS = 'Level 0 is shown as UNKNOWN.'
EDITS = [
    ('handlers/file/base_formatter_fields_extractors.py',
     "        if level is None:\n            return 'UNKNOWN'",
     "        if not level:\n            return 'UNKNOWN'"),
]
DEMO = r'''
import race
from race import check, done
from polog.handlers.file.base_formatter import BaseFormatter
f = BaseFormatter('')
line = f.get_formatted_string({'message': 'x', 'level': 0})
check('UNKNOWN' not in line.split('|')[1], line)
done()
'''
