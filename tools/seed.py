#!/usr/bin/env python3
"""Plants the bugs described in tools/seeds/*.py: writes seeded/<id>/, builds and tests a scratch copy with the change, runs the demonstration on both trees.
   python3 tools/seed.py [id filter] [--fast]   (--fast: everything but the test suite; --demo: not the checks either; --own: only the check of the property)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'curver/kernel/'
SEEDS = []
def seed(id, prop, file, old, new, demo, needs, breaks, more=()): SEEDS.append((id, prop, [(file, old, new), *more], demo, needs, breaks))
for f in sorted(os.listdir(HERE + '/tools/seeds')):
    if f.endswith('.py'): exec(open(HERE + '/tools/seeds/' + f).read())
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\n# Exits 0 when the property holds for this case.\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
STABLE = json.load(open('/opt/vp/BASELINE.json'))
def build(s, fast):
    id, prop, edits, demo, needs, breaks = s
    d = tempfile.mkdtemp(prefix='seed')
    try:
        r = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for file, old, new in edits:
            p = os.path.join(r, file); t = open(p).read()
            if t.count(old) != 1: return id, f'{t.count(old)} matches in {file}'
            open(p, 'w').write(t.replace(old, new))
        out = HERE + '/seeded/' + id
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
        msg = ''
        if a.returncode: msg += f' DEMO FAILS ON CLEAN TREE {(a.stdout + a.stderr)[-400:]}'
        if not b.returncode: msg += f' DEMO PASSES WITH CHANGE'
        else: msg += ' demo: ' + (b.stdout + b.stderr).strip().splitlines()[-1][:150]
        if not fast and 'DEMO' not in msg:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HYPOTHESIS_STORAGE_DIRECTORY=d + '/hyp')
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--runslow', '--hypothesis-profile=dev', '--hypothesis-seed=3', '--timeout=180', '--continue-on-collection-errors'], cwd=r, env=env, capture_output=True, text=True)
            fails = [l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))]
            msg += ' TESTS ' + t.stdout.strip().splitlines()[-1] + ' '.join(fails[:6])
        env = dict(os.environ, SA_REPO=r, SA_EVIDENCE=d + '/ev'); hits = []
        for f in sorted(os.listdir(HERE + '/sa')) if '--demo' not in sys.argv else ():
            if f.startswith('check_c') and f.endswith('.py') and ('--own' not in sys.argv or f[6:9].upper() == prop):
                c = f[6:9].upper()
                x = subprocess.run([sys.executable, HERE + '/sa/run.py', c], env=env, capture_output=True, text=True)
                if x.returncode: hits.append(c if x.returncode == 1 else f'{c}!{x.returncode}')
        msg += f'\n      {prop} ' + ('CAUGHT' if prop in hits else 'missed') + f' by {hits}'
        return id, msg
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    sel = [s for s in SEEDS if not args or any(a in s[0] or a == s[1] for a in args)]
    with ThreadPoolExecutor(2 if '--fast' not in sys.argv else 3) as ex:
        for id, msg in ex.map(lambda s: build(s, '--fast' in sys.argv), sel): print(id, msg, flush=True)
