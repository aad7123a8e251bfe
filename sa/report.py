"""Findings, known findings, evidence files and exit codes."""
import json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# After this time nothing more is analysed: what is left is undecided, and said to be.
DEADLINE = time.monotonic() + float(os.environ.get('SA_SECONDS', 3600 if 'thorough' in sys.argv else 480))

class Report:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings, self.keys = [], set()
        self.counts, self.samples, self.notes = {}, [], []
        self.rules = []
        self.t0 = time.time()
    def rule(self, text): self.rules.append(text)
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def sample(self, text):
        if len(self.samples) < 25: self.samples.append(text)
    def note(self, text):
        if text not in self.notes: self.notes.append(text)
    def finding(self, rule, where, detail, line=0, **extra):
        key = f'{rule}|{where}|{detail}'
        if key in self.keys: return
        self.keys.add(key)
        self.findings.append(dict(rule=rule, where=where, detail=detail, line=line, key=key, **extra))
    def need(self, name, least):
        """An obligation count below its floor means that the analysis no longer sees what it has to decide."""
        if self.counts.get(name, 0) < least and time.monotonic() > DEADLINE: self.note(f'only {self.counts.get(name, 0)} {name} in the time there is')
        elif self.counts.get(name, 0) < least:
            from repo import AnalysisError
            raise AnalysisError(f'only {self.counts.get(name, 0)} {name}, at least {least} expected: the analysis lost its anchors')

def known(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith(f'known: property={prop} key='):
                rest = line.split(' key=', 1)[1]
                key, _, text = rest.partition(' :: ')
                out[key] = text
    return out

def finish(rep):
    kn = known(rep.prop)
    new = [f for f in rep.findings if f['key'] not in kn]
    old = [f for f in rep.findings if f['key'] in kn]
    for f in old: print(f"KNOWN-FINDING: property={rep.prop} {f['where']}: {kn[f['key']] or f['detail']}")
    ev = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    explanation = ' '.join(rep.rules)
    body = {'property': rep.prop, 'tier': rep.tier, 'seed': rep.seed, 'level': 'other',
        'coverage': {'explanation': explanation, 'counts': rep.counts, 'samples': rep.samples, 'notes': rep.notes[:40], 'known_findings': [f['key'] for f in old]},
        'wall_s': round(time.time() - rep.t0, 3), 'violations': new}
    with open(os.path.join(ev, rep.prop + '.json'), 'w', encoding='utf-8') as h: json.dump(body, h, indent=1, default=str)
    if new:
        rp = os.path.join(ev, rep.prop + '.violations.json')
        with open(rp, 'w', encoding='utf-8') as h: json.dump(new, h, indent=1, default=str)
        for f in new: print(f"{f['where']}:{f['line']}: [{f['rule']}] {f['detail']}")
        print(f'VIOLATION property={rep.prop} replay={rp}')
        return 1
    print(f'{rep.prop}: held; ' + ', '.join(f'{n} {c}' for n, c in sorted(rep.counts.items())))
    return 0

def parallel(f, items, n=8):
    """[f(x) for x in items], computed by forked processes."""
    import multiprocessing as mp
    global _F
    _F = f
    with mp.get_context('fork').Pool(min(n, len(items), os.cpu_count() or 1)) as pool: return pool.map(_call, items, chunksize=1)
def _call(x):
    import resource, signal
    def late(*a):
        from repo import TooMuch
        raise TooMuch('this takes too long to analyse')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(DEADLINE - time.monotonic(), 0) + 60, 10)
    sys.setrecursionlimit(30000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try: return _F(x)
    finally: signal.setitimer(signal.ITIMER_REAL, 0)

def part(rep, f, *args, **kw):
    """One part of an analysis; if it cannot be carried out that is said, and the other parts go on."""
    try: return f(*args, **kw)
    except Exception as e:
        if os.environ.get('SA_DEBUG'): raise
        rep.count('parts not analysed'); rep.note(f'{getattr(f, "__name__", "part")}: not analysed ({type(e).__name__}: {e})')
