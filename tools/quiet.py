"""Quietness: python3 tools/quiet.py DIFF [suite] [ID...] applies a behaviour-preserving patch in a scratch copy (see plant.py) and
runs the checks there; every check has to stay quiet. A development tool, no registered command uses it."""
import os
import shutil
import subprocess
import sys
import time
import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

diff = os.path.abspath(sys.argv[1])
ids = [x for x in sys.argv[2:] if x != 'suite']
if not ids:
    ids = ['C%02d' % x for x in range(1, 32)]
name = 'quiet-' + os.path.basename(diff)
folder = os.path.join(plant.SCRATCH, name)
shutil.rmtree(folder, ignore_errors=True)
os.makedirs(folder + '/reports')
os.makedirs(folder + '/tmp')
plant.sh(['cp', '-a', '/repo', folder + '/repo'])
os.makedirs(folder + '/verif')
for x in os.listdir(plant.VERIF):
    if x not in ('seeded', 'evidence', 'replays', '.git'):
        plant.sh(['cp', '-a', os.path.join(plant.VERIF, x), folder + '/verif/' + x])
os.makedirs(folder + '/verif/evidence')
os.makedirs(folder + '/verif/replays')
r = plant.sh(['git', 'apply', diff], cwd=folder + '/repo')
assert r.returncode == 0, r.stderr
try:
    if 'suite' in sys.argv:
        code, text = plant.inside(folder, 'bash /opt/vp/build.sh && bash /opt/vp/test.sh /opt/vp/reports/out.json; true', 900)
        passed = json.load(open(folder + '/reports/out.json'))['passed']
        print('suite missing', sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(passed)), flush=True)
    for one in ids:
        t = time.time()
        code, text = plant.inside(folder, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s' % one, 1000)
        print(one, code, '%d s' % (time.time() - t), '' if code == 0 else text[-1500:], flush=True)
finally:
    shutil.rmtree(folder, ignore_errors=True)
