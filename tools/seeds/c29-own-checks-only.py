PROPERTY = 'C29'
NEEDS = 'a handler class with checks of its own, given a wrong filter or fallback'
BREAKS = 'The checks of a handler replace those of the base class instead of adding to them: a wrong filter or fallback is accepted.'
EDITS = [
    ('handlers/abstract/base.py',
     "            input_proves = {**self._input_proves, **self.input_proves}\n",
     "            input_proves = {**self.input_proves}\n"),
]
DEMO = r'''
import race
from race import check, done
import io
from polog import file_writer
for name in ('filter', 'alt'):
    for value in (lambda: None, lambda a, b: None, 5):
        try:
            file_writer(io.StringIO(), **{name: value})
            check(False, (name, value))
        except ValueError:
            pass
done()
'''
