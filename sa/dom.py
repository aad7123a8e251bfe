"""Abstract values: a value is a frozenset of atoms; TOP is the unknown value (never reported on)."""
from collections import namedtuple

Top = namedtuple('Top', '')
K = namedtuple('K', 'ty v')                        # constant
Num = namedtuple('Num', 'kind lo hi tag t')        # kind: int frac alg float np ; tag: frame of a weight; t: term
Bool = namedtuple('Bool', 'c')                     # unknown truth value (c: condition term or None)
Str = namedtuple('Str', 't')
EdgeA = namedtuple('EdgeA', 'tag t')               # a library Edge; tag (strong frame claim) or None
Obj = namedtuple('Obj', 'cls fr org sym')          # library object: exact class, frames, origin, identity term
Ref = namedtuple('Ref', 'oid')                     # heap object
Fn = namedtuple('Fn', 'node selfv aid cls')        # function of the analysed program (closure = activation id)
Cls = namedtuple('Cls', 'name')
Mod = namedtuple('Mod', 'name')
Ext = namedtuple('Ext', 'name')                    # external function / module attribute, dotted
BM = namedtuple('BM', 'recv name')                 # method of a builtin object
Sup = namedtuple('Sup', 'cls selfv')               # super()
Exc = namedtuple('Exc', 'name')                    # exception instance

TOPA = Top()
TOP = frozenset([TOPA])
BOT = frozenset()
MAXATOMS = 14

def k(v): return frozenset([K(type(v).__name__, v)])
NONE, TRUE, FALSE = k(None), k(True), k(False)
NI = frozenset([K('NotImplementedType', 'NotImplemented')])
BOOL = frozenset([Bool(None)])
STR = frozenset([Str(None)])
def one(a): return frozenset([a])
def num(kind='int', lo=None, hi=None, tag=None, t=None): return frozenset([Num(kind, lo, hi, tag, t)])
INT = num()
NAT = num(lo=0)
EXACT = frozenset([Num('int', None, None, None, None), Num('frac', None, None, None, None), Num('alg', None, None, None, None)])

# Heap records. kind: list tuple dict set iter nd inst queue
class Rec:
    __slots__ = ('kind', 'items', 'elem', 'key', 'ne', 'org', 'cls', 'fields', 'aux')
    def __init__(self, kind, items=None, elem=BOT, key=BOT, ne=False, org='fresh', cls=None, fields=None, aux=None):
        self.kind, self.items, self.elem, self.key, self.ne, self.org, self.cls, self.fields, self.aux = kind, items, elem, key, ne, org, cls, fields, aux
    def tup(self):
        return (self.kind, tuple(self.items) if self.items is not None else None, self.elem, self.key, self.ne, self.org, self.cls, tuple(sorted(self.fields.items())) if self.fields is not None else None, self.aux)
    def __eq__(self, o): return isinstance(o, Rec) and self.tup() == o.tup()
    def __hash__(self): return hash(self.tup())
    def copy(self, **kw):
        r = Rec(self.kind, self.items, self.elem, self.key, self.ne, self.org, self.cls, self.fields, self.aux)
        for a, b in kw.items(): setattr(r, a, b)
        return r
    def __repr__(self): return f'<{self.kind} {self.cls or ""} items={self.items} elem={self.elem} key={self.key} {self.org}>'

def join_num(a, b):
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return Num(a.kind, lo, hi, a.tag if a.tag == b.tag else None, a.t if a.t == b.t else None)

def norm_value(s):
    """Cap a set of atoms."""
    if TOPA in s and len(s) == 1: return TOP
    nums = {}
    out = set()
    for a in s:
        if isinstance(a, Num):
            if a.kind in nums: nums[a.kind] = join_num(nums[a.kind], a)
            else: nums[a.kind] = a
        else: out.add(a)
    out |= set(nums.values())
    ks = [a for a in out if isinstance(a, K) and a.ty in ('int', 'float', 'str')]
    if len(ks) > 6:
        for ty in ('int', 'float', 'str'):
            sub = [a for a in ks if a.ty == ty]
            if len(sub) > 3:
                out -= set(sub)
                if ty == 'str': out.add(Str(None))
                else:
                    n = Num(ty, min(x.v for x in sub), max(x.v for x in sub), None, None)
                    if ty in nums: out.discard(nums[ty]); n = join_num(nums[ty], n)
                    out.add(n)
    bs = [a for a in out if isinstance(a, Bool)]
    if len(bs) > 1: out -= set(bs); out.add(Bool(None))
    if len(out) > MAXATOMS: return TOP
    return frozenset(out)

class State:
    __slots__ = ('envs', 'heap', 'eq', 'pc')
    def __init__(self, envs=None, heap=None, eq=None, pc=()):
        self.envs, self.heap, self.eq, self.pc = envs or {}, heap or {}, eq or {}, pc
    def copy(self):
        return State({a: dict(e) for a, e in self.envs.items()}, dict(self.heap), dict(self.eq), self.pc)
    def find(self, f):
        while f in self.eq: f = self.eq[f]
        return f
    def union(self, f, g):
        f, g = self.find(f), self.find(g)
        if f != g:
            if str(g).startswith('F:') and not str(f).startswith('F:'): f, g = g, f
            self.eq[g] = f
    def same(self, f, g):
        return f == '?' or g == '?' or self.find(f) == self.find(g)
