"""Body against specification: whatever an operation returns has a class and lives on a triangulation that its
specification (api.SPECS) allows, and every value is used on the triangulation it belongs to."""
from dom import *
import api
from api import Api, P, LAMS
import entries as E
from repo import AnalysisError
from interp import Dead

class Match:
    """One comparison of an actual value with an expected one."""
    def __init__(self, I, st, rigid):
        self.I, self.st, self.rigid, self.bind = I, st, rigid, {}
        self.problems, self.decided, self.undecided = [], 0, 0
    def frame(self, want, got):
        if want == '?' or got == '?': self.undecided += 1; return True
        w = self.st.find(want)
        if w in self.rigid or want in self.rigid: return self.st.same(w, got)
        if w in self.bind: return self.st.same(self.bind[w], got)
        self.bind[w] = got
        return True
    def value(self, want, got, path):
        if not want or TOPA in want: return
        if not got or TOPA in got: self.undecided += 1; return
        wobj = [x for x in want if isinstance(x, Obj)]
        wedge = [x for x in want if isinstance(x, EdgeA)]
        for x in sorted(got, key=repr):
            if isinstance(x, Obj) and x.cls in self.I.repo.classes:
                if not wobj: continue
                same = [w for w in wobj if w.cls == x.cls]
                if not same:
                    if x.cls not in ('Triangle', 'Edge'): self.problems.append(('class', f'{path} can be a {x.cls}, expected {"/".join(sorted(set(w.cls for w in wobj)))}'))
                    continue
                ok = False
                for w in same:
                    save = dict(self.bind)
                    if len(w.fr) != len(x.fr): ok = True; break
                    if all([self.frame(a, b) for a, b in zip(w.fr, x.fr)]): ok = True; break
                    self.bind = save
                self.decided += 1
                if not ok: self.problems.append(('frame', f'{path} ({x.cls}) is not on the triangulation its operands give'))
            elif isinstance(x, EdgeA) and wedge and x.tag is not None:
                self.decided += 1
                if not any(w.tag is None or self.frame(w.tag, x.tag) for w in wedge): self.problems.append(('frame', f'{path} (an edge) is not on the triangulation its operands give'))
            elif isinstance(x, Ref):
                rec = self.st.heap[x.oid]
                if rec.kind == 'inst': self.undecided += 1; continue
                for w in want:
                    if isinstance(w, Ref) and w.oid in self.st.heap: self.rec(self.st.heap[w.oid], rec, path)
            elif isinstance(x, K) and x.ty == 'NoneType' and not any(isinstance(w, K) for w in want):
                self.problems.append(('none', f'{path} can be None'))
    def rec(self, w, g, path):
        I = self.I
        if w.items is not None and g.items is not None and len(w.items) == len(g.items) and w.kind != 'dict':
            for n, (a, b) in enumerate(zip(w.items, g.items)): self.value(a, b, f'{path}[{n}]')
            return
        (wk, we), (gk, ge) = I.summary(w), I.summary(g)
        if wk and gk: self.value(wk, gk, path + ' keys')
        if we and ge: self.value(we, ge, path + ' items')

def has_spec(repo, e):
    for key in ([f'{e.dcls}.{e.node.name}'] if e.dcls else [e.module.dotted.split('.')[-1] + '.' + e.node.name]):
        if key in api.SPECS: return api.SPECS[key]
        if e.dcls:
            for n, s in api.SPECS.items():
                if n.endswith('+'):
                    b, m = n[:-1].split('.')
                    if m == e.node.name and repo.is_sub(e.dcls, b): return s
    return None

RIGID = {'F', 'G', 'H'}
def check_entry(repo, e, over=None, tag=False, **kw):
    """(problems, decided, undecided, events) of one entry."""
    I = Api(repo, **kw)
    s = has_spec(repo, e)
    rets, sink, v, st0 = E.run_entry(I, e, over)
    I.last_sink = sink
    problems, dec, und = [], 0, 0
    if s is not None:
        for st, got in rets:
            m = Match(I, st, RIGID)
            # the specification, evaluated on the same arguments in the state of this return
            c = E.Ctx(I, st, e.node, e.cls, 'F', 'F')
            rv, F, G = E.receiver(e.cls) if e.cls else (None, 'F', 'G')
            env = E.build_args(I, st, e, F, G, over)
            a = e.node.args
            names = [p.arg for p in a.posonlyargs + a.args]
            decs = [d for d, _ in repo.decorators(e.node)]
            if e.dcls and names and 'staticmethod' not in decs: env[names[0]] = rv if 'classmethod' not in decs else one(Cls(e.cls))
            I.sinks.append([]); I.noreport += 1
            class A: pass
            act = A(); act.node = e.node; act.ctx = ('spec',); act.iterctx = (); act.unc = 0; act.cls = e.dcls; act.aid = 'spec'
            st.envs.setdefault('spec', {})
            I.stack.append(act)
            try: want = s(I, st, P(env), e.node)
            except Dead: want = None
            finally: I.stack.pop(); I.sinks.pop(); I.noreport -= 1
            if want is None: continue
            m.value(want, got, 'the result')
            problems += m.problems; dec += m.decided; und += m.undecided
    return problems, dec, und, I, rets
