"""C02: all arithmetic is exact."""
from dom import *
from sweep import sweep
from api import Api
import entries as E

def halving(repo, rep):
    """The exact halving on constants: an odd integer is refused, an even one of any size gives its half."""
    for e in E.entries(repo):
        if e.cls != 'Half' or e.node.name not in ('__mul__', '__rmul__', '__call__'): continue
        for n in (1, -1, 7, 2 ** 80 + 1, -2 ** 80 - 1, 2, -6, 0, 2 ** 80 + 2, -2 ** 80 - 2):
            I = Api(repo)
            rets, sink, v, st = E.run_entry(I, e, {'other': lambda c, m, n=n: k(n)})
            rep.count('halvings decided')
            got = set(x for _, w in rets for x in w)
            if n % 2 and rets: rep.finding('half', repo.where(e.node), 'halving an odd integer returns instead of raising', e.node.lineno)
            if not n % 2 and (not rets or any(isinstance(x, K) and x != K('int', n // 2) for x in got)): rep.finding('half', repo.where(e.node), 'halving an even integer does not give its half exactly', e.node.lineno)

def check(repo, rep):
    rep.rule('Every number carries its kind through every kernel operation: unbounded integer, Fraction, exact algebraic number, float or fixed-width machine integer; matrices carry their dtype. '
        'Rule (float): no float or fixed-width value meets exact data in arithmetic, in a constructor of exact data or in a matrix, no array is built without dtype=object, and nothing is halved except by the exact halving.')
    for e, I, rets, sink, v, st in sweep(repo, rep):
        rep.count('arithmetic operations', I.ariths)
        for ev in I.events:
            if ev['rule'] == 'float': rep.finding('float', ev['where'], ev['detail'], ev['line'])
    halving(repo, rep)
    rep.need('entries', 300); rep.need('arithmetic operations', 1000); rep.need('halvings decided', 10)
