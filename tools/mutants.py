"""Plants each listed change in a scratch copy of the package and says which checks report it.
   python3 tools/mutants.py [name filter] [--checks C01,C04]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(name, prop, file, old, new, quiet=False): M.append((name, prop, file, old, new, quiet))
K = 'curver/kernel/'
for f in sorted(os.listdir(os.path.join(HERE, 'tools', 'mutants'))):
    if f.endswith('.py'): exec(open(os.path.join(HERE, 'tools', 'mutants', f)).read())
def run(mu, checks):
    name, prop, file, old, new, quiet = mu
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/curver', d + '/curver', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, file); s = open(p).read()
        if s.count(old) < 1: return name, prop, quiet, 'NO MATCH'
        s = s.replace(old, new, 1); open(p, 'w').write(s)
        try: compile(s, p, 'exec')
        except SyntaxError as e: return name, prop, quiet, f'SYNTAX {e}'
        out = []
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'sa', 'run.py'), c], env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + '/ev'), capture_output=True, text=True)
            if r.returncode == 1: out.append(c + ': ' + ' ;; '.join(l for l in r.stdout.splitlines() if not l.startswith(('VIOL', 'KNOWN')))[:260])
            elif r.returncode: out.append(c + f'!{r.returncode} ' + (r.stdout + r.stderr)[-300:])
        return name, prop, quiet, out
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ids = [a[9:].split(',') for a in sys.argv if a.startswith('--checks=')]
    allc = sorted('C' + f[7:9] for f in os.listdir(HERE + '/sa') if f.startswith('check_c') and f.endswith('.py'))
    own = '--own' in sys.argv
    sel = [x for x in M if not args or any(a in x[0] or a == x[1] for a in args)]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", 4))) as ex:
        miss = []
        for name, prop, quiet, out in ex.map(lambda x: run(x, ids[0] if ids else ([x[1]] if own and x[1] in allc else allc)), sel):
            hit = isinstance(out, list) and any(o.startswith(prop + ':') for o in out)
            status = ('FALSE ALARM' if out else 'quiet') if quiet else 'caught' if hit else 'other' if isinstance(out, list) and out else 'MISSED' if out == [] else out
            if status not in ('caught', 'quiet') or '-v' in sys.argv:
                print(f'{status:12} {prop} {name}', *(out if isinstance(out, list) else []), sep='\n      ' if out else ' ')
            if status not in ('caught', 'quiet'): miss.append(name)
    print(len(sel), 'changes,', len(miss), 'not as wanted')
