"""Liveness of local names at loop heads: a name that every path through the loop assigns before it reads, and
that nothing outside the loop reads, holds nothing at the head."""
import ast

ALL = None  # 'every name is assigned': the path does not get here
def meet(a, b):
    if a is ALL: return b
    if b is ALL: return a
    return a & b
def exprs_of(s):
    return [x for x in ast.iter_child_nodes(s) if isinstance(x, (ast.expr, ast.comprehension, ast.keyword, ast.withitem))]
def loads(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store): out.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.Lambda)): pass
    return out
def stores(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

def block(body, defd):
    """(names read before assignment, names assigned on normal completion) given the names already assigned."""
    use = set()
    for s in body:
        if defd is ALL: break
        u, defd = stmt(s, defd)
        use |= u
    return use, defd
def stmt(s, d):
    r = lambda n: loads(n) - d
    if isinstance(s, (ast.Return, ast.Raise)): return (r(s), ALL)
    if isinstance(s, (ast.Break, ast.Continue)): return (set(), ALL)
    if isinstance(s, ast.If):
        u1, d1 = block(s.body, d); u2, d2 = block(s.orelse, d)
        return r(s.test) | u1 | u2, meet(d1, d2)
    if isinstance(s, ast.For):
        t = stores(s.target)
        u, _ = block(s.body, d | t); u2, _ = block(s.orelse, d)
        return r(s.iter) | (loads(s.target) - d) | u | u2, d
    if isinstance(s, ast.While):
        u, _ = block(s.body, d); u2, _ = block(s.orelse, d)
        return r(s.test) | u | u2, d
    if isinstance(s, ast.Try):
        u, d1 = block(s.body, d)
        for h in s.handlers:
            uh, dh = block(h.body, d | ({h.name} if h.name else set())); u |= uh; d1 = meet(d1, dh)
            if h.type is not None: u |= r(h.type)
        uo, do = block(s.orelse, d); u |= uo
        uf, df = block(s.finalbody, d); u |= uf
        return u, d1
    if isinstance(s, ast.With):
        u = set()
        for i in s.items: u |= loads(i.context_expr) - d
        ub, db = block(s.body, d | set().union(*[stores(i.optional_vars) for i in s.items if i.optional_vars is not None] or [set()]))
        return u | ub, db
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)): return r(s), d | {s.name}
    if isinstance(s, ast.AugAssign):
        u = r(s.value) | ({s.target.id} - d if isinstance(s.target, ast.Name) else loads(s.target) - d)
        return u, d
    if isinstance(s, ast.Assign):
        u = r(s.value)
        for t in s.targets: u |= loads(t) - d
        return u, d | set().union(*[top_stores(t) for t in s.targets])
    if isinstance(s, ast.Delete): return r(s), d
    return r(s), d
def top_stores(t):
    if isinstance(t, ast.Name): return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)): return set().union(*[top_stores(e) for e in t.elts] or [set()])
    if isinstance(t, ast.Starred): return top_stores(t.value)
    return set()

_memo = {}
def dead_at_head(loop, fn):
    """Local names of function fn that hold nothing at the head of the loop."""
    key = (id(loop), id(fn))
    if key not in _memo:
        body = [loop] if isinstance(loop, ast.For) else [loop]
        if isinstance(loop, ast.For): u, _ = block(loop.body, stores(loop.target))
        else:
            u, _ = block(loop.body, set()); u |= loads(loop.test)
        inside = {id(x) for x in ast.walk(loop)}
        outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store) and id(x) not in inside} if fn is not None else set()
        # a name read by a nested function may be read at any time
        closures = set()
        for x in ast.walk(fn or loop):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn: closures |= loads(x)
        # names read outside by a loop that encloses this one count as outside reads: that is conservative
        cand = stores(loop) - (stores(loop.target) if isinstance(loop, ast.For) else set())
        _memo[key] = (cand - u - outside - closures, (loop, fn))
    return _memo[key][0]
