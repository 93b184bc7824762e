PROPERTY = 'C03'
NEEDS = 'the number of workers is raised only after the first record'
BREAKS = 'The exit callback is registered only if there are workers at the moment of the first record, so records in a queue created later are lost at exit.'
EDITS = [
    ('core/engine/engine.py',
     '        self.load()\n        self.atexit_register()\n',
     "        self.load()\n        if self.settings.force_get('pool_size'):\n            self.atexit_register()\n"),
]
DEMO = r"""
import race
from race import check, done
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'out')
    code = '''
import sys, time
sys.path.insert(0, %r)
from polog import log, config
def handler(record):
    time.sleep(0.1)
    with open(%r, 'a') as f:
        f.write(record['message'] + ' ')
config.set(level=0, max_delay_before_exit=10)
config.add_handlers(handler)
log('a')
config.set(pool_size=1)
for x in 'bcde':
    log(x)
''' % (os.getcwd(), path)
    subprocess.run([sys.executable, '-B', '-c', code], check=True, timeout=60)
    text = open(path).read()
check(text.split() == list('abcde'), text)
done()
"""
