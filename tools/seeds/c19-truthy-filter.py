PROPERTY = 'C19'
NEEDS = 'a filter that returns something other than a boolean'
BREAKS = 'Any result of the filter other than None decides.'
EDITS = [
    ('handlers/abstract/base.py',
     '            if type(result) is bool:\n                return result',
     '            if result is not None:\n                return bool(result)'),
]
DEMO = r'''
import race
from race import check, done
from polog.handlers.abstract.base import BaseHandler
class Handler(BaseHandler):
    def do(self, content):
        done_records.append(content)
    def get_content(self, log):
        return log
done_records = []
Handler(filter=lambda record: 0)({'message': 'x'})
check(len(done_records) == 1, done_records)
done()
'''
