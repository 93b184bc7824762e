PROPERTY = 'C03'
NEEDS = 'the maximal delay is changed after the first record'
BREAKS = 'The maximal delay before exit is read once, at the first record: a later change of the setting is ignored and records are cut off at exit.'
EDITS = [
    ('core/utils/time_limit.py',
     """        self.delay = self.get_delay_function(delay)
""",
     """        delay_function = self.get_delay_function(delay)
        try:
            value = delay_function()
            self.delay = lambda: value
        except Exception:
            self.delay = delay_function
"""),
]
DEMO = r"""
import race
from race import check, done
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'out')
    code = '''
import sys, time
sys.path.insert(0, %r)
from polog import log, config
def handler(record):
    time.sleep(0.5)
    with open(%r, 'a') as f:
        f.write(record['message'] + ' ')
config.set(level=0, max_delay_before_exit=0.3, pool_size=1)
config.add_handlers(handler)
log('a')
config.set(max_delay_before_exit=20)
for x in 'bcde':
    log(x)
''' % (os.getcwd(), path)
    subprocess.run([sys.executable, '-B', '-c', code], timeout=60)
    text = open(path).read()
check(text.split() == list('abcde'), text)
done()
"""
