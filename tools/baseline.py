"""Write sa/baseline.json: the operations analysed as entry points, and the names of their parameters (which give the
parameters their roles).  Functions that are not listed are analysed where they are called."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
from repo import Repo
import entries
r = Repo()
out = {}
for e in entries.entries(r, all_=True):
    a = e.node.args
    out[e.qual] = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
json.dump(out, open(os.path.join(os.path.dirname(entries.__file__), 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(out))
