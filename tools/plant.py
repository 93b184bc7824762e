"""Planted bugs: python3 tools/plant.py [make] [suite] [check] [-j N] ID... (default: all ids, all steps)

A seed is a file tools/seeds/ID.py with PROPERTY, NEEDS, BREAKS, EDITS = [(file under /repo/polog, old, new), ...] and DEMO
(the text of demo.py; `import race` gives the helpers of tools/race.py). Every step works on a scratch copy of /repo (and of
/verif) that is bind-mounted over the real one in a private mount namespace, so the real trees are never touched; this is a
development tool, no registered command uses it.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDS = os.path.join(HERE, 'seeds')
OUT = os.path.join(VERIF, 'seeded')
SCRATCH = '/tmp/plant'


def sh(command, **kw):
    return subprocess.run(command, capture_output=True, text=True, **kw)


def inside(folder, command, timeout):
    """Run a shell command where folder/repo is /repo and folder/verif is /verif."""
    script = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/reports /opt/vp/reports && mount --bind %s/tmp /tmp && %s' % (folder, folder, folder, folder, command)
    try:
        r = sh(['unshare', '-m', 'bash', '-c', script], timeout=timeout, cwd='/')
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', str(e.stdout)[-300:]


def prepare(name, seed):
    folder = os.path.join(SCRATCH, name)
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder + '/reports')
    os.makedirs(folder + '/tmp/demo')
    sh(['cp', '-a', '/repo', folder + '/repo'])
    os.makedirs(folder + '/verif')
    for x in os.listdir(VERIF):
        if x not in ('seeded', 'evidence', 'replays', '.git'):
            sh(['cp', '-a', os.path.join(VERIF, x), folder + '/verif/' + x])
    os.makedirs(folder + '/verif/evidence')
    os.makedirs(folder + '/verif/replays')
    for file, old, new in seed['EDITS']:
        path = os.path.join(folder, 'repo', 'polog', file)
        text = open(path, encoding='utf-8').read()
        assert text.count(old) == 1, '%s: %d occurrences in %s of %r' % (name, text.count(old), file, old)
        open(path, 'w', encoding='utf-8').write(text.replace(old, new))
    diff = sh(['git', 'diff'], cwd=folder + '/repo').stdout
    assert diff, name
    # only original lines may be changed
    blame = {}
    file = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            file = line[6:]
            blame[file] = [x.split()[0].lstrip('^').startswith('732f82') for x in sh(['git', 'blame', '-s', 'HEAD', '--', file], cwd='/repo').stdout.splitlines()]
        elif line.startswith('@@'):
            number = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-'):
            if not blame[file][number - 1] and line[1:].strip():
                print('   NOTE', name, 'changes a line of mine:', line)
            number += 1
        elif line.startswith(' '):
            number += 1
    return folder, diff


def one(name, steps):
    seed = runpy.run_path(os.path.join(SEEDS, name + '.py'))
    folder, diff = prepare(name, seed)
    out = os.path.join(OUT, name)
    result = {}
    try:
        if 'make' in steps:
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w', encoding='utf-8').write(diff)
            open(out + '/demo.py', 'w').write(seed['DEMO'].lstrip('\n'))
            if 'import race' in seed['DEMO'] or 'from race' in seed['DEMO']:
                shutil.copy(HERE + '/race.py', out + '/race.py')
            open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout -k 5 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': seed['PROPERTY'], 'needs': seed['NEEDS'], 'what_it_breaks': seed['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            for x in os.listdir(out):
                if x not in ('patch.diff', 'meta.json'):
                    shutil.copy(os.path.join(out, x), folder + '/tmp/demo/')
            run = 'cd /repo && bash /tmp/demo/demo.sh'
            with_patch = inside(folder, run, 200)
            clean = inside(folder, 'cd /repo && git stash -q && bash /tmp/demo/demo.sh; code=$?; git stash pop -q; exit $code', 200)
            status = sh(['git', 'status', '--short'], cwd=folder + '/repo').stdout
            result['demo'] = 'ok' if clean[0] == 0 and with_patch[0] not in (0, 'timeout') else 'BAD clean=%r patched=%r' % (clean, with_patch)
            result['demo says'] = with_patch[1].strip()[-160:]
        if 'suite' in steps:
            code, text = inside(folder, 'bash /opt/vp/build.sh && bash /opt/vp/test.sh /opt/vp/reports/../reports/out.json; cp /opt/vp/reports/out.json /tmp/ 2>/dev/null; true', 900)
            try:
                passed = json.load(open(folder + '/reports/out.json'))['passed']
                missing = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(passed))
                result['suite'] = 'ok' if not missing else 'BAD %s' % missing[:4]
            except Exception as e:
                result['suite'] = 'BAD %r %s' % (e, text[-400:])
        if 'check' in steps:
            t = time.time()
            code, text = inside(folder, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s' % seed['PROPERTY'], 1000)
            lines = [x for x in text.splitlines() if x.startswith('VIOLATION property=%s ' % seed['PROPERTY'])]
            result['check'] = '%s in %d s %s' % ('CAUGHT' if code == 1 and lines else 'MISSED exit %s' % code, time.time() - t, '' if code == 1 else text[-300:])
            result['found'] = [x for x in text.splitlines() if x.strip()][:3]
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return result


def main(args):
    jobs = 1
    if '-j' in args:
        i = args.index('-j')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    steps = [x for x in args if x in ('make', 'suite', 'check')] or ['make', 'suite', 'check']
    names = [x for x in args if x not in ('make', 'suite', 'check')] or sorted(x[:-3] for x in os.listdir(SEEDS) if x.endswith('.py'))
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        futures = {n: pool.submit(one, n, steps) for n in names}
        for n, f in futures.items():
            try:
                r = f.result()
            except Exception as e:
                r = {'error': '%s: %s' % (type(e).__name__, e)}
            print('==', n)
            for k, v in r.items():
                print('    %-10s %s' % (k, str(v)[:500]))
            sys.stdout.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
