PROPERTY = 'C16'
NEEDS = 'two threads that write their first record through one handler'
BREAKS = 'The formatter replaces its method before it has initialised itself: a second thread fails at that moment and its record is not written.'
EDITS = [
    ('handlers/file/base_formatter.py',
     '        self.__init_on_run__()\n        result = self._get_formatted_string(log)\n        self.get_formatted_string = self._get_formatted_string\n        return result',
     '        self.get_formatted_string = self._get_formatted_string\n        self.__init_on_run__()\n        return self._get_formatted_string(log)'),
]
DEMO = r'''
import race
from race import check, done
import os, tempfile
from polog import file_writer
k = 1
while True:
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'log')
        h = file_writer(path)
        reached, ended = race.pause_at(k, lambda: h({'message': 'text-one'}), lambda: h({'message': 'text-two'}))
        if not reached:
            break
        text = open(path).read()
    check(text.count('text-one') == 1 and text.count('text-two') == 1, text)
    k += 1
done()
'''
