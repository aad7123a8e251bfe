"""C01: operations never modify the objects they are given."""
from dom import *
from sweep import sweep
import entries as E

KEEPS_COPY = ('Lamination', 'HomologyClass', 'Permutation', 'MappingClassGroup', 'Triangle')
def check(repo, rep):
    rep.rule('Every kernel operation is analysed once per receiver class with its receiver, arguments, fields, remembered results and module-level values marked by origin; containers and objects made inside the operation are fresh. '
        'Rule (mut): no assignment to an attribute or item, in-place operator or modifying method is applied to anything that is not fresh, on any path, in the operation or anything it calls (attribute _cache and the union-find structure excepted). '
        'Rule (keep): after a constructor of a lamination, homology class, triangle, permutation or mapping class group no field refers to a container that came from the caller.')
    for e, I, rets, sink, v, st in sweep(repo, rep):
        rep.count('modifying constructs seen', I.mutations)
        for ev in I.events:
            if ev['rule'] == 'mut': rep.finding('mut', ev['where'], ev['detail'], ev['line'])
        if e.node.name == '__init__' and any(k in repo.mro(e.cls) for k in KEEPS_COPY):
            first = (e.node.args.posonlyargs + e.node.args.args)[0].arg
            for s, w in rets or [(st, None)]:
                for x in s.envs.get(I.top_aid, {}).get(first, ()):
                    if not isinstance(x, Ref): continue
                    for n, fv in sorted((s.heap[x.oid].fields or {}).items()):
                        rep.count('stored fields checked')
                        for y in fv:
                            if isinstance(y, Ref) and s.heap[y.oid].org == E.ARG:
                                rep.finding('keep', repo.where(e.node), f'field {n} of {e.cls} is the container that the caller passed, not a copy', e.node.lineno)
    rep.need('entries', 300); rep.need('modifying constructs seen', 100); rep.need('stored fields checked', 10)
