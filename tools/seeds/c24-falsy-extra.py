PROPERTY = 'C24'
NEEDS = 'an extra field with a false value'
BREAKS = 'Extra fields with false values are left out of the line.'
EDITS = [
    ('handlers/file/base_formatter.py',
     '                    if value is not None:\n                        if isinstance(value, str):',
     '                    if value:\n                        if isinstance(value, str):'),
]
DEMO = r'''
import race
from race import check, done
from polog.handlers.file.base_formatter import BaseFormatter
text = BaseFormatter('')._get_formatted_string
f = BaseFormatter('')
line = f.get_formatted_string({'message': 'x', 'attempt': 0})
check('attempt: 0' in line, line)
done()
'''
