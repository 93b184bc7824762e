PROPERTY = 'C27'
NEEDS = 'a result of log() that is still referenced when the program ends'
BREAKS = 'The record of a result that is still held at the end of the program is never written.'
EDITS = [
    ('loggers/finalizer.py',
     '        self.finalizer = weakref.finalize(self, self.create_finalizer(*args, **kwargs))',
     '        self.finalizer = weakref.finalize(self, self.create_finalizer(*args, **kwargs))\n        self.finalizer.atexit = False'),
]
DEMO = r"""
import race
from race import check, done
import subprocess, sys, os, tempfile
text = '''
import sys
sys.path.insert(0, %r)
from polog import log, config
config.add_handlers(lambda record: (sys.stdout.write('<' + record['message'] + '>'), sys.stdout.flush()))
config.set(level=0)
log('one')
held = log('two')
''' % os.getcwd()
out = subprocess.run([sys.executable, '-c', text], capture_output=True, text=True).stdout
check(out == '<one><two>', out)
done()
"""
