"""C16: compressed words denote exactly the word they are built from.

Compressed words over given letters are interpreted abstractly (constant propagation for their structure): what iterating,
indexing, measuring and reversing the result of each operation gives is compared with the same operation on plain lists."""
from dom import *
from repo import AnalysisError
from model import *
from interp import Dead
from check_c05 import Words
from report import parallel

SLP = 'StraightLineProgram'
LETTERS = 'abcdefgh'
class Compressed(Words):
    def __init__(self, repo, rep, name='torus'):
        super().__init__(repo, rep, name)
        I = self.I
        I.contracts.pop('new:' + SLP, None)
        for n in repo.classes[SLP].methods: I.contracts.pop(f'{SLP}.{n}', None)
        I.unroll_forever, I.unroll_while, I.hooks['recursion'] = True, 400, 60; I.wide = 400
        self.at = lambda n: self.where(SLP, n)
    def letter_(self, c): return one(K('str', c))
    def plain(self, st, word): return self.construct(st, SLP, [self.lst(st, [self.letter_(c) for c in word])])
    def const(self, v):
        x = self.I.sole(v) if v and len(v) == 1 else None
        return x.v if isinstance(x, K) else None
    def text(self, st, v):
        its = self.I.items(st, v) if v is not None and len(v) == 1 else None
        out = None if its is None else [self.const(i) for i in its]
        return None if out is None or None in out else out
    def drain(self, st, v):
        """What a list made from an iterable holds."""
        I = self.I
        I.epoch += 1
        I.sinks.append([])
        try: return self.text(st, I.call(one(Ext('list')), [v], {}, st, I.NODE))
        except Dead: return 'refused'
        finally: I.sinks.pop()
    def settle(self, at, what, st, v, want, deep=True):
        """The compressed word v is the plain word want."""
        I, rep = self.I, self.rep
        rep.count('words compared')
        if v is None: rep.finding('word', at, f'{what} never returns'); return
        if not deep: self.nodes(at, what, st, v)
        got = self.drain(st, v)
        if got == 'refused': rep.finding('word', at, f'the letters of {what} never come'); return
        if got is None: rep.count('undecided'); rep.note(f'{what}: its letters are not known'); return
        rep.count('words decided')
        if got != list(want): rep.finding('word', at, f'{what} is another word'); rep.note(f'{what}: {"".join(map(str, got))[:60]} instead of {"".join(map(str, want))[:60]}'); return
        n = len(want)
        for name, f, wanted in (('__len__', lambda: self.const(I.invoke(st, v, '__len__')), n),):
            r = f()
            rep.count('answers compared')
            if r is None: rep.count('undecided')
            elif r != wanted: rep.finding('word', self.at(name), f'{what}: its length is another number')
        r = I.invoke(st, v, '__reversed__')
        r = self.drain(st, r) if r is not None else 'refused'
        rep.count('answers compared')
        if r is None: rep.count('undecided')
        elif r != list(want)[::-1]: rep.finding('word', self.at('__reversed__'), f'{what}: it reads another way backwards')
        if not deep: return
        for i in range(-n - 1, n + 1) if n < 14 else [-n - 1, -n, -n + 1, -n // 2, -1, 0, 1, n // 3, n // 2, n - 2, n - 1, n]:
            g = I.given_up
            r = I.invoke(st, v, '__getitem__', [k(i)])
            rep.count('answers compared')
            if I.given_up != g: rep.count('undecided'); continue
            if -n <= i < n:
                if r is None: rep.finding('word', self.at('__getitem__'), f'{what}: an index within it is refused')
                elif self.const(r) is None: rep.count('undecided')
                elif self.const(r) != want[i]: rep.finding('word', self.at('__getitem__'), f'{what}: an index gives another letter')
            elif r is not None: rep.finding('word', self.at('__getitem__'), f'{what}: an index beyond its end is answered')
        for c in sorted(set(want) | {LETTERS[0], 'z'}):
            r = I.invoke(st, v, '__contains__', [self.letter_(c)])
            rep.count('answers compared')
            if r is None or self.const(r) is None: rep.count('undecided')
            elif want and self.const(r) != (c in want): rep.finding('word', self.at('__contains__'), f'{what}: a letter {"in" if c in want else "not in"} it is {"not " if c in want else ""}found')
        self.nodes(at, what, st, v)
    def nodes(self, at, what, st, v):
        """Nodes refer to nodes of the structure, and never back to themselves."""
        I = self.I
        g = I.items(st, I.field_of(st, v, 'graph') or BOT) if len(v) == 1 else None
        if g is None: return
        kids = []
        for node in g:
            cs = I.items(st, node)
            if cs is None: return
            kids.append([self.const(c) for c in cs])
        flat = [c for cs in kids for c in cs if isinstance(c, int)]
        self.rep.count('node references', len(flat))
        if any(not 0 <= c < len(kids) for c in flat): self.rep.finding('node', at, f'{what}: a node refers outside the structure'); return
        seen, path = set(), set()
        def go(n):
            if n in path: return True
            if n in seen: return False
            seen.add(n); path.add(n)
            r = any(go(c) for c in kids[n] if isinstance(c, int))
            path.discard(n)
            return r
        if kids and go(0): self.rep.finding('node', at, f'{what}: a node refers to itself')
    # ---- building
    def add(self, st, a, b): return self.op(st, '+', a, b)
    def op(self, st, o, a, b):
        import ast
        I = self.I
        I.epoch += 1
        I.sinks.append([])
        try: return I.binop({'+': ast.Add, '*': ast.Mult, '<<': ast.LShift, '>>': ast.RShift}[o](), a, b, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()
    def total(self, st, vs): return self.I.invoke(st, one(Cls(SLP)), 'sum', [self.lst(st, vs)])
    def compound(self, st, kind):
        v, w = self.compound1(st, kind)
        if v is None:
            self.rep.finding('word', self.at('__init__'), 'a compressed word that is put together never comes to be')
            raise AnalysisError(f'the word {kind} is not made')
        return v, w
    def compound1(self, st, kind):
        """Words of several nodes: (value, letters)."""
        p = lambda w: self.plain(st, w)
        if kind in ('', 'a', 'ab', 'abc'): return p(kind), kind
        if kind == '2(ab)': return self.op(st, '*', p('ab'), k(2)), 'abab'
        if kind == '5a': return self.op(st, '*', p('a'), k(5)), 'aaaaa'
        if kind == 'ab+c': return self.add(st, p('ab'), p('c')), 'abc'
        if kind == '3(ab+c)': return self.op(st, '*', self.add(st, p('ab'), p('c')), k(3)), 'abc' * 3
        if kind == '2a+3b': return self.add(st, self.op(st, '*', p('a'), k(2)), self.op(st, '*', p('b'), k(3))), 'aabbb'
        if kind == 'sum': return self.total(st, [p('ab'), p('c'), p('de')]), 'abcde'
        if kind == '2sum': return self.op(st, '*', self.total(st, [p('a'), p('bc'), self.op(st, '*', p('d'), k(3))]), k(2)), 'abcddd' * 2
        if kind == 'a+': return self.add(st, p('a'), p('')), 'a'
    KINDS = ('', 'a', 'ab', 'abc', '2(ab)', '5a', 'ab+c', '3(ab+c)', '2a+3b', 'sum', '2sum', 'a+')
    def begin(self):
        st = self.start()
        return st
    def unary(self, tier, only):
        I, at = self.I, self.at
        for kd in [only]:
            st = self.begin()
            v, w = self.compound(st, kd)
            what = lambda s: s
            self.settle(at('__init__'), 'a compressed word', st, v, w)
            if v is None: continue
            for style in ('copy', 'tuple'):
                st = self.begin()
                v, w = self.compound(st, kd)
                r = self.construct(st, SLP, [v]) if style == 'copy' else self.construct(st, SLP, [self.lst(st, [self.letter_(c) for c in w], 'tuple')])
                self.settle(at('__init__'), 'a copy of a compressed word' if style == 'copy' else 'a word given as a tuple', st, r, w)
            for n in ('reverse', 'map'):
                st = self.begin()
                v, w = self.compound(st, kd)
                if n == 'reverse': self.settle(at(n), 'a reversed word', st, I.invoke(st, v, n), w[::-1])
                else: self.settle(at(n), 'a word relabelled by nothing', st, I.invoke(st, v, n), w)
            st = self.begin()
            v, w = self.compound(st, kd)
            self.settle(at('map'), 'a relabelled word', st, I.invoke(st, v, 'map', [self.upper()]), w.upper())
            st = self.begin()
            v, w = self.compound(st, kd)
            for i in range(3): I.invoke(st, v, 'reverse')
            self.settle(at('reverse'), 'a word reversed elsewhere', st, v, w, deep=False)
            # moving the nodes
            for o, n in (('<<', '__lshift__'), ('>>', '__rshift__')):
                if self.repo.find_method(SLP, n) is None: continue
                for d in (0, 1, 5):
                    st = self.begin()
                    v, w = self.compound(st, kd)
                    was = self.table(st, I.field_of(st, v, 'graph'))
                    now = self.table(st, self.op(st, o, v, k(d)))
                    self.rep.count('answers compared')
                    if was is None or now is None: self.rep.count('undecided'); continue
                    s = d if o == '<<' else -d
                    if now != [[c + s if isinstance(c, int) else c for c in cs] for cs in was]: self.rep.finding('node', at(n), 'moving the nodes of a word refers to other nodes')
    def multiples(self, tier, kd):
        I, at = self.I, self.at
        exps = list(range(0, 18)) + [23, 31, 32, 33] if tier == 'quick' else list(range(0, 70))
        for kd in [kd]:
            for n in exps:
                for side in ('left', 'right') if n < 7 else ('left',):
                    st = self.begin()
                    v, w = self.compound(st, kd)
                    r = self.op(st, '*', v, k(n)) if side == 'left' else self.op(st, '*', k(n), v)
                    self.settle(at('__mul__' if side == 'left' else '__rmul__'), 'a repeated word', st, r, w * n, deep=n < 12)
    P, B = 2 ** 89 - 1, 2 ** 61 + 15
    def stands_for(self, g):
        """The word that a table of nodes stands for: its length and its letters as digits, modulo a prime."""
        seen = {}
        def go(n, path=()):
            if n in seen: return seen[n]
            if n in path or not 0 <= n < len(g): raise ValueError
            l, x = 0, 0
            for c in g[n]:
                if isinstance(c, int): m, y = go(c, path + (n,))
                elif isinstance(c, str): m, y = 1, ord(c)
                else: raise ValueError
                l, x = l + m, (x * pow(self.B, m, self.P) + y) % self.P
            seen[n] = l, x
            return l, x
        return go(0)
    def nodes_of(self, st, v):
        """The table of nodes of a compressed word, letters being single characters."""
        I = self.I
        g = I.items(st, I.field_of(st, v, 'graph') or BOT) if v and len(v) == 1 else None
        if g is None: return None
        out = []
        for node in g:
            cs = I.items(st, node)
            if cs is None: return None
            row = []
            for c in cs:
                x = self.const(c)
                if x is None:
                    t = I.field_of(st, c, 'value') if len(c) == 1 and isinstance(I.sole(c), Ref) else None
                    if t is None and len(c) == 1 and isinstance(I.sole(c), Ref): t = (I.items(st, c) or [None])[0]
                    x = self.const(t) if t is not None else None
                    if not isinstance(x, str) or len(x) != 1: return None
                elif not isinstance(x, int): return None
                row.append(x)
            out.append(row)
        return out
    def huge(self, tier, kd):
        """Powers too large to write out: the nodes stand for the power of the word, and its length and letters are found."""
        I, rep = self.I, self.rep
        I.wide, I.hooks['recursion'], I.maxdepth, I.unroll_while = 600, 200, 240, 1000
        exps = [2 ** 31, 2 ** 32 + 5, 2 ** 53 + 1, 3 * 2 ** 61 + 1, 10 ** 25 + 7] + ([2 ** k_ + d for k_ in (15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128) for d in (-1, 0, 1)] if tier != 'quick' else [])
        for n in exps:
            st = self.begin()
            v, w = self.compound(st, kd)
            r = self.op(st, '*', v, k(n))
            at, what = self.at('__mul__'), 'a word repeated very often'
            rep.count('words compared')
            if r is None: rep.finding('word', at, f'{what} never comes to be'); return
            g = self.nodes_of(st, r)
            if g is None: rep.count('undecided'); rep.note(f'{what}: its nodes are not known'); continue
            self.nodes(at, what, st, r)
            l, x = 0, 0
            for c in w: l, x = l + 1, (x * self.B + ord(c)) % self.P
            # the n-fold repetition, by doubling
            want, power, m = (0, 0), (l, x), n
            join = lambda a, b: (a[0] + b[0], (a[1] * pow(self.B, b[0], self.P) + b[1]) % self.P)
            while m:
                if m & 1: want = join(power, want)
                power, m = join(power, power), m >> 1
            try: got = self.stands_for(g)
            except ValueError: rep.finding('node', at, f'{what}: a node refers outside the structure or to itself'); return
            rep.count('words decided')
            if got != want: rep.finding('word', at, f'{what} is another word'); return
            ln = self.const(I.invoke(st, r, '__len__') or BOT)
            rep.count('answers compared')
            if ln is None: rep.count('undecided')
            elif ln != l * n: rep.finding('word', self.at('__len__'), f'{what}: its length is another number'); return
            for i in (0, l * n - 1, l * n // 2 + 1, l * n // 3, -1, -l * n, l * n, -l * n - 1) if n == exps[0] or n == exps[-1] or tier != 'quick' else (l * n // 3,):
                g = I.given_up
                c = I.invoke(st, r, '__getitem__', [k(i)])
                rep.count('answers compared')
                if I.given_up != g: rep.count('undecided'); continue
                if -l * n <= i < l * n:
                    if c is None: rep.finding('word', self.at('__getitem__'), f'{what}: an index within it is refused')
                    elif self.const(c) is None: rep.count('undecided')
                    elif self.const(c) != w[i % l]: rep.finding('word', self.at('__getitem__'), f'{what}: an index gives another letter')
                elif c is not None: rep.finding('word', self.at('__getitem__'), f'{what}: an index beyond its end is answered')
            b = I.invoke(st, r, 'reverse')
            g = self.nodes_of(st, b) if b is not None else None
            if g is not None:
                rep.count('answers compared')
                want, (l, x), m = (0, 0), (0, 0), n
                for c in w[::-1]: l, x = l + 1, (x * self.B + ord(c)) % self.P
                power = (l, x)
                while m:
                    if m & 1: want = join(power, want)
                    power, m = join(power, power), m >> 1
                try:
                    if self.stands_for(g) != want: rep.finding('word', self.at('reverse'), f'{what} and then reversed is another word')
                except ValueError: rep.finding('node', self.at('reverse'), f'{what} and then reversed: a node refers outside the structure or to itself')
    def sums(self, tier, x):
        I, at = self.I, self.at
        for x in [x]:
            for y in self.KINDS:
                st = self.begin()
                a, u = self.compound(st, x)
                b, v = self.compound(st, y)
                self.settle(at('__add__'), 'the sum of two words', st, self.add(st, a, b), u + v, deep=len(u + v) < 14)
                if '__radd__' in self.repo.classes[SLP].methods:
                    st = self.begin()
                    a, u = self.compound(st, x)
                    b, v = self.compound(st, y)
                    self.settle(at('__radd__'), 'the sum of two words from the right', st, I.invoke(st, a, '__radd__', [b]), v + u, deep=False)
        for x in [x]:
            for y in self.KINDS:
                for z in ('a', 'ab+c', '') if tier == 'quick' else self.KINDS:
                    for order in ((x, z, y), (z, x, y, x)):
                        if tier == 'quick' and len(order) == 4 and y > x: continue
                        st = self.begin()
                        vs = [self.compound(st, o) for o in order]
                        self.settle(at('sum'), 'the sum of several words', st, self.total(st, [v for v, w in vs]), ''.join(w for v, w in vs), deep=len(order) == 3 and z == 'a')
            for n in (1, 2):
                st = self.begin()
                vs = [self.compound(st, x) for _ in range(n)]
                self.settle(at('sum'), 'the sum of several words', st, self.total(st, [v for v, w in vs]), ''.join(w for v, w in vs))
        for x in [x]:
            for order in ((0, 0), (0, 1, 0), (1, 0, 0)):
                st = self.begin()
                vs = [self.compound(st, x), self.compound(st, 'ab+c')]
                self.settle(at('sum'), 'the sum of words that occur repeatedly', st, self.total(st, [vs[i][0] for i in order]), ''.join(vs[i][1] for i in order), deep=False)
        st = self.begin()
        self.settle(at('sum'), 'the sum of no words', st, self.total(st, []), '', deep=False)
    def table(self, st, v):
        I = self.I
        g = I.items(st, v) if v and len(v) == 1 else None
        if g is None: return None
        out = []
        for node in g:
            cs = I.items(st, node)
            if cs is None: return None
            out.append([self.const(c) if self.const(c) is not None else repr(c) for c in cs])
        return out
    def upper(self):
        import ast
        fn = ast.parse('def upper(x):\n    return x.swapcase()\n').body[0]
        self.repo.owner[fn] = self.repo.owner[self.repo.classes[SLP].methods['__init__']]
        return one(Fn(fn, None, None, None))
    # ---- words naming mapping classes
    def groups(self, tier):
        I = self.I
        own = self.repo.find_method('MappingClassGroup', 'mapping_class')
        if own is None: return
        at = self.repo.where(own[1])
        cases = [('', ''), ('a', 'a'), ('a.b', 'ab'), ('ab', 'ab'), ('aB', 'aB'), ('a^2', 'aa'), ('a^-2', 'AA'), ('(ab)^3', 'ababab'), ('(aB)^-2', 'bAbA'), ('ab(ba)^-1a', 'abABa'), ('a^0', ''), ('a^0b', 'b'), ('(ab)^0', ''),
            ('((ab)^2b)^2', 'ababbababb'), ('(a^2b^-1)^-1', 'bAA'), ('a^+3', 'aaa'), ('(a)(b)', 'ab'), (' a  b ', 'ab'), ('((a))', 'a'), ('A^-1', 'a'), ('(A^-2b)^2', 'aabaab'), ('(((ab)^2)^-1)^2', 'BABABABA'),
            ('a^11', 'a' * 11), ('(ab)^5', 'ab' * 5), ('b(a(b)^2)^2b', 'babbabbb'), ('ab^2', 'abab'), ('a.b^2', 'abab'), ('()', ''), ('a()b', 'ab'), ('ba', 'ba'), ('bbA', 'bbA'),
            ('ba^-1b', 'ABb'), ('(b)a^-1(b)', 'bAb'), ('(ba)^-3', 'ABABAB'), ('(a.B)^-3.a', 'bA' * 3 + 'a')]
        for data, want in cases: self.named(at, data, want, self.letters(data))
        for word in ('', 'a', 'ab', 'aBBA', 'bAb'):
            for kind in ('list', 'tuple', 'slp'): self.named(at, (kind, word), word, 'abAB')
        # generators whose names begin alike
        for data, want in (('a_1a_10', ['a_1', 'a_10']), ('a_10a_1', ['a_10', 'a_1']), ('a_1.a_10^2', None), ('(a_10a_1)^-1', ['A_1', 'A_10']), ('a_1^2', ['a_1', 'a_1']), ('A_10.a_1', ['A_10', 'a_1']), ('a_1a_1', ['a_1', 'a_1'])):
            if want is not None: self.named(at, data, want, None, names=('a_1', 'a_10'))
    def letters(self, data): return 'abAB'
    def named(self, at, data, want, letters, names=('a', 'b')):
        I = self.I
        st = self.begin()
        gens = []
        pos, neg = [], []
        for n in names:
            e, w = self.endo(st, (n, n + "'"))
            i = I.invoke(st, e, 'inverse')
            if e is None or i is None: return
            gens += [(n, w), (n.swapcase(), [(l, -s) for l, s in w[::-1]])]
            pos.append((self.letter_(n), e)); neg.append((self.letter_(n.swapcase()), i))
        self.n += 1
        f = {'mapping_classes': self.dct(st, pos + neg), 'pos_mapping_classes': self.dct(st, pos), 'neg_mapping_classes': self.dct(st, neg), 'triangulation': self.tri(st), 'zeta': k(self.zeta)}
        g = I.heap(st, ('c16g', self.n), Rec('inst', org='an argument', cls='MappingClassGroup', fields=f))
        if isinstance(data, tuple):
            kind, word = data
            arg = self.plain(st, word) if kind == 'slp' else self.lst(st, [self.letter_(c) for c in word], kind)
            if kind == 'slp': return
        else: arg = self.letter_(data)
        by = dict(gens)
        for name in ('mapping_class', '__call__'):
            v = I.invoke(st, g, name, [arg])
            self.judge(self.where('MappingClassGroup', name), 'the map named by a word', st, v, [l for c in want for l in by[c]], self.tris, self.tris)
    def run_one(self, tier, section, arg):
        self.path = []
        getattr(self, section)(tier, *arg)

def work(repo, tier, unit):
    from report import Report
    rep = Report('C16', tier)
    err = None
    from report import part
    part(rep, lambda: Compressed(repo, rep).run_one(tier, unit[0], unit[1:]))
    return rep.counts, rep.findings, rep.notes, err

def check(repo, rep):
    rep.rule('Compressed words of one and several nodes, and what adding, repeating, summing, reversing, relabelling, copying and moving them gives, are interpreted abstractly; a result whose letters, length, indices or '
             'membership differ from those of the plain word, or with a node referring elsewhere, is a violation. Words naming mapping classes are interpreted with formal generators.')
    if SLP not in repo.classes: raise AnalysisError(f'{SLP} is not there any more')
    units = [('groups',)] + [('huge', kd) for kd in ('ab', '2(ab)', '3(ab+c)')] + [('multiples', kd) for kd in ('sum', 'ab+c', 'ab', 'a', '')] + [(s, kd) for kd in Compressed.KINDS[::-1] for s in ('sums', 'unary')]
    for counts, findings, notes, err in parallel(lambda u: work(repo, rep.tier, u), units):
        if err: raise AnalysisError(err)
        for c, n in counts.items(): rep.count(c, n)
        for f in findings: rep.finding(f['rule'], f['where'], f['detail'], f['line'])
        for n in notes: rep.note(n)
    rep.need('words compared', 300)
