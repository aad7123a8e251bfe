#!/usr/bin/env python3
"""Applies the behaviour-preserving rewrites of tools/refactors/*.py to a scratch copy and runs every check on it: all must stay quiet.
   python3 tools/refactor.py [file filter] [--tests] [--each] [--checks=C05,C12]   (--each: one rewrite at a time instead of all of a file together)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {}
for f in sorted(os.listdir(HERE + '/tools/refactors')):
    if f.endswith('.py'):
        L = FILES.setdefault(f[:-3], [])
        def r(name, file, old, new, *more): L.append((name, [(file, old, new)] + [tuple(m) if len(m) == 3 else (file, *m) for m in more]))
        exec(open(HERE + '/tools/refactors/' + f).read())
def run(name, rs, tests):
    d = tempfile.mkdtemp(prefix='rf')
    try:
        repo = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for n, edits in rs:
            for file, old, new in edits:
                p = os.path.join(repo, 'curver', file); t = open(p).read()
                if t.count(old) != 1: return name, f'{n}: {t.count(old)} matches in {file}: {old[:50]!r}'
                open(p, 'w').write(t.replace(old, new))
        msg = ''
        if tests:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HYPOTHESIS_STORAGE_DIRECTORY=d + '/hyp')
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--runslow', '--hypothesis-profile=dev', '--hypothesis-seed=3', '--timeout=180'], cwd=repo, env=env, capture_output=True, text=True)
            msg += ' TESTS ' + t.stdout.strip().splitlines()[-1] + ' '.join([l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))][:6])
        env = dict(os.environ, SA_REPO=repo, SA_EVIDENCE=d + '/ev')
        only = [a[9:].split(',') for a in sys.argv if a.startswith('--checks=')]
        for f in sorted(os.listdir(HERE + '/sa')):
            if f.startswith('check_c') and f.endswith('.py') and (not only or f[6:9].upper() in only[0]):
                c = f[6:9].upper()
                x = subprocess.run([sys.executable, HERE + '/sa/run.py', c], env=env, capture_output=True, text=True)
                if x.returncode:
                    msg += f'\n   {c} exit {x.returncode}: ' + (x.stdout + x.stderr)[-400:].strip()
                    try: msg += ''.join('\n        ' + str((v['rule'], v['where'], v['detail'])) for v in json.load(open(d + f'/ev/{c}.violations.json'))[:4])
                    except Exception as e: pass
                else:
                    u = [w for w in x.stdout.strip().split('; ')[-1].split(', ') if 'undecided' in w or 'not analysed' in w]
                    if u: msg += f'\n   {c} {u}'
        return name, msg or ' quiet'
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    jobs = [(f, rs) for f, rs in FILES.items() if not args or any(a in f for a in args)]
    if '--each' in sys.argv: jobs = [(f'{f}/{x[0]}', [x]) for f, rs in jobs for x in rs]
    with ThreadPoolExecutor(2) as ex:
        for n, m in ex.map(lambda j: run(*j, '--tests' in sys.argv), jobs): print(n, m, flush=True)
