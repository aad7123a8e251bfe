"""Abstract models of the builtins, containers, numpy and itertools operations the analysed package uses."""
import ast, itertools
from dom import *
import terms as T
from interp import Dead, EXC_PARENTS, one_move
from exprs import Exprs, edge_const

class Wrap:
    """How the moves of an encoding appear when iterated: plainly, or paired with a counter."""
    def __init__(self, how='id', key=None): self.how, self.key = how, key
    def __eq__(self, o): return isinstance(o, Wrap) and (self.how, self.key) == (o.how, o.key)
    def __hash__(self): return hash((self.how, self.key))
    def __repr__(self): return f'Wrap({self.how})'
    def __call__(self, st, v):
        if self.how == 'id': return v
        oid = self.key
        st.heap[oid] = Rec('tuple', (NAT, v), BOT, BOT, True)
        return one(Ref(oid))

OPERATORS = dict(eq=('cmp', ast.Eq), ne=('cmp', ast.NotEq), lt=('cmp', ast.Lt), le=('cmp', ast.LtE), gt=('cmp', ast.Gt), ge=('cmp', ast.GtE), is_=('cmp', ast.Is), is_not=('cmp', ast.IsNot), add=('bin', ast.Add), sub=('bin', ast.Sub), mul=('bin', ast.Mult), floordiv=('bin', ast.FloorDiv), mod=('bin', ast.Mod), matmul=('bin', ast.MatMult), call=('call', None))
NUM_FNS = {'len', 'hash', 'id', 'ord'}

class Lib(Exprs):
    idwrap = Wrap()
    # ------------------------------------------------------------ helpers
    def items_of(self, v, st, node):
        """('items', [..]) or ('elem', value, nonempty); chains are flattened to moves with unknown frames."""
        it = self.iterate(v, st, node)
        if it[0] == 'chain': return ('elem', it[3](st, one_move(self, it[1], ('?', '?'))), True)
        return it
    def mk(self, st, node, kind, it, sub=0, **kw):
        if it[0] == 'items': return self.new(st, node, kind, items=list(it[1]), sub=sub, **kw)
        return self.new(st, node, kind, elem=it[1], ne=it[2], sub=sub, **kw)
    def is_num(self, x): return isinstance(x, Num) or isinstance(x, K) and x.ty in ('int', 'float', 'bool') or isinstance(x, Bool)
    def sole(self, v): return next(iter(v)) if len(v) == 1 else None
    def str_of(self, v):
        x = self.sole(v)
        return x.v if isinstance(x, K) and x.ty == 'str' else None

    def known_items(self, v, st):
        """The items of a container or iterator all of whose items are known one by one, or None."""
        x = self.sole(v) if v else None
        if not isinstance(x, Ref): return None
        r = st.heap[x.oid]
        if r.kind in ('dict', 'set') and r.items is not None:
            it = self.items_of(v, st, None)
            return list(it[1]) if it[0] == 'items' else None
        if r.kind not in ('list', 'tuple', 'iter', 'nd') or r.items is None or r.aux == ('view',): return None
        if self.stack and self.stack[-1].unc and r.kind == 'iter': return None
        return list(r.items)
    def used(self, v, st, rest=()):
        """An iterator has been advanced."""
        x = self.sole(v)
        r = st.heap[x.oid]
        if r.kind == 'iter' and r.aux is None: st.heap[x.oid] = r.copy(items=tuple(rest))
    def nth(self, i, f, args, st, node):
        """The call of a function for one item: what it makes is told apart from what it makes for the others."""
        a = self.stack[-1] if self.stack else None
        if a is None: return self.call(f, args, {}, st, node)
        old = a.iterctx
        a.iterctx = old + (('nth', id(node), i),)
        try: return self.call(f, args, {}, st, node)
        finally: a.iterctx = old
    def tuples(self, st, node, rows):
        return self.new(st, node, 'iter', items=[self.new(st, node, 'tuple', items=list(t), sub=('it', i)) for i, t in enumerate(rows)])
    # ------------------------------------------------------------ functions made by operator and functools
    def closure(self, *parts):
        parts = tuple(tuple(sorted(p.items())) if isinstance(p, dict) else tuple(p) if isinstance(p, list) else p for p in parts)
        names = self.__dict__.setdefault('closures', {})
        if parts not in names: names[parts] = f'closure#{len(names)}'; self.__dict__.setdefault('closed', {})[names[parts]] = parts
        return one(Ext(names[parts]))
    def call_closure(self, name, args, kw, st, node):
        kind, given, words = self.closed[name]
        if kind == 'partial': return self.call(given[0], list(given[1:]) + args, {**dict(words), **kw}, st, node)
        if not args or isinstance(args[0], tuple): return TOP
        def get(v, i):
            out = BOT
            for x in v: out = self.join(out, self.getitem1(x, i, st, node))
            return out or TOP
        if kind == 'methodcaller':
            n = self.str_of(given[0])
            return self.call(self.getattr_(args[0], n, st, node), list(given[1:]), dict(words), st, node) if n else TOP
        def one_of(g):
            if kind == 'itemgetter': return get(args[0], g)
            n, v = self.str_of(g), args[0]
            for part in (n.split('.') if n else ()): v = self.getattr_(v, part, st, node)
            return v if n else TOP
        vs = [one_of(g) for g in given]
        return vs[0] if len(vs) == 1 else self.new(st, node, 'tuple', items=vs, sub='get')
    # ------------------------------------------------------------ regular expressions on constant strings
    def call_re(self, name, a, kw, spread, st, node):
        import re
        if spread or kw: return None
        cs = [self.fold_value(v, st) for v in a]
        parts = name.split('.')
        if len(parts) == 3 and parts[1].startswith('Match#'):
            if parts[2] not in ('group', 'groups', 'groupdict', 'start', 'end', 'span') or any(c is None for c in cs): return None
            try: return self.unfold(getattr(self.matches[int(parts[1][6:])], parts[2])(*[c[0] for c in cs]), st, node)
            except IndexError: self.raise_(st, 'IndexError', node)
        if len(cs) and parts[-1] in ('match', 'fullmatch', 'search', 'findall') and cs[-1] is not None and not isinstance(cs[-1][0], str): self.raise_(st, 'TypeError', node)
        if name == 're.compile':
            if a and cs[0] is not None and len(a) == 1 and isinstance(cs[0][0], str): return one(Ext('re.' + self.pattern(cs[0][0])))
            return one(Ext('re.Pattern'))
        if len(parts) == 3 and parts[1].startswith('Pattern#'): pat, meth = self.patterns[parts[1]], parts[2]
        elif len(parts) == 2 and parts[1] in ('match', 'fullmatch', 'search', 'findall', 'sub', 'split') and a and cs[0] is not None: pat, meth, cs = cs[0][0], parts[1], cs[1:]
        elif len(parts) == 2 and parts[1] in ('match', 'fullmatch', 'search') or len(parts) == 3 and parts[2] in ('match', 'fullmatch', 'search'): return NONE | one(Ext('re.Match'))
        elif parts[-1] in ('sub', 'escape'): return STR
        elif parts[-1] in ('findall', 'split', 'finditer'): return self.new(st, node, 'list', elem=TOP)
        else: return None
        if any(c is None or not isinstance(c[0], (str, int)) for c in cs) or not isinstance(pat, str):
            if meth in ('match', 'fullmatch', 'search'): return NONE | one(Ext('re.Match'))
            return STR if meth == 'sub' else self.new(st, node, 'list', elem=STR) if meth in ('findall', 'split') else None
        try: v = getattr(re, meth)(pat, *[c[0] for c in cs])
        except Exception: return None
        if isinstance(v, re.Match): self.matches.append(v); return one(Ext(f're.Match#{len(self.matches) - 1}'))
        return self.unfold(v, st, node)
    def pattern(self, p):
        for n, q in self.patterns.items():
            if q == p: return n
        n = f'Pattern#{len(self.patterns)}'
        self.patterns[n] = p
        return n
    # ------------------------------------------------------------ builtin functions
    def call_ext(self, name, args, kw, st, node):
        h = self.hooks.get('ext')
        if h:
            v = h(self, name, args, kw, st, node)
            if v is not None: return v
        if name.startswith('closure#'): return self.call_closure(name, list(args), kw, st, node)
        spread = [a for a in args if isinstance(a, tuple)]
        pos = [a for a in args if not isinstance(a, tuple)]
        base = name.split('.')[-1]
        if base in ('partial', 'itemgetter', 'attrgetter', 'methodcaller') and pos and not spread: return self.closure(base, pos, kw)
        if name.startswith('re.'):
            v = self.call_re(name, pos, kw, spread, st, node)
            if v is not None: return v
        if name.startswith('namedtuple:'): return self.make_nt(name, pos, kw, st, node, spread)
        if name in EXC_PARENTS: return one(Exc(name))
        root = name.split('.')[0]
        if root in ('np', 'numpy'): return self.call_np(name.split('.', 1)[1] if '.' in name else name, pos, kw, st, node)
        m = getattr(self, 'x_' + base, None) if root not in ('networkx', 'realalg', 're', 'random', 'operator') else None
        if root == 'operator' and not spread and not kw and base in OPERATORS:
            kind, op = OPERATORS[base]
            if kind == 'cmp' and len(pos) == 2: return self.cmp(op(), pos[0], pos[1], st, node)
            if kind == 'bin' and len(pos) == 2: return self.binop(op(), pos[0], pos[1], st, node)
            if kind == 'call' and pos: return self.call(pos[0], pos[1:], {}, st, node)
        if name.startswith('object.'):
            if base in ('__eq__', '__ne__') : return NI
            if base in ('__init__', '__new__', '__setattr__', '__delattr__'): return NONE
            if base == '__hash__': return INT
            return TOP
        if root in ('str', 'list', 'dict', 'set', 'tuple', 'frozenset', 'int', 'deque', 'collections') and name.count('.') == (2 if root == 'collections' else 1) and pos and base not in ('fromkeys', 'maketrans', 'from_bytes', 'deque', 'Counter', 'defaultdict', 'OrderedDict', 'namedtuple') and not base.startswith('__'):
            # a method of a builtin type called through its type
            return self.call(self.getattr_(pos[0], base, st, node), pos[1:] + spread, kw, st, node)
        if m is None: return TOP
        v = m(pos, kw, st, node, spread)
        return v if v else TOP
    def x_len(self, a, kw, st, node, sp):
        out = BOT
        for x in a[0] if a else TOP:
            r = NAT
            if isinstance(x, Ref):
                rec = st.heap[x.oid]
                if rec.kind == 'inst': r = self.call_dunder(x, '__len__', [], st, node)
                elif rec.kind == 'iter' and rec.aux not in (('view',), ('range',)):
                    if len(a[0]) == 1: self.raise_(st, 'TypeError', node)
                    continue
                elif rec.items is not None: r = k(len(rec.items))
                elif rec.ne: r = num(lo=1)
                if rec.kind in ('list', 'tuple') and rec.items is None and rec.aux is not None and rec.aux[0] == 'sym': r = num(lo=0, t=T.sym(('len', rec.aux[1])))
            elif isinstance(x, Obj):
                if x.cls in ('Encoding', 'Mapping', 'MappingClass'): r = num(lo=1) if self.word_length is None else k(self.word_length)
                else:
                    f = self.repo.find_method(x.cls, '__len__') if x.cls in self.repo.classes else None
                    r = self.call_dunder(x, '__len__', [], st, node) if f else NAT
                    if r == TOP: r = NAT
            elif isinstance(x, K) and x.ty == 'str': r = k(len(x.v))
            elif isinstance(x, (Num, EdgeA)) or isinstance(x, K) and x.ty in ('int', 'bool', 'NoneType', 'float'):
                if len(a[0]) == 1: self.raise_(st, 'TypeError', node)
                continue
            out = self.join(out, r)
        return out
    def x_range(self, a, kw, st, node, sp):
        cs = [self.const_index(x) for x in a]
        if all(c is not None for c in cs):
            r = range(*cs)
            if len(r) <= self.wide: return self.new(st, node, 'iter', items=[k(i) for i in r], aux=('range',))
        lo = 0
        if len(a) >= 2:
            lo = min((x.v if isinstance(x, K) and x.ty == 'int' else x.lo if isinstance(x, Num) else None) or 0 if not isinstance(x, Top) else -10**9 for x in a[0])
            x = self.sole(a[0])
            lo = x.v if isinstance(x, K) and x.ty == 'int' else x.lo if isinstance(x, Num) else None
            if len(a) == 3: lo = None
        stop = self.sole(a[0] if len(a) == 1 else a[1]) if a else None
        hi = (stop.v - 1 if isinstance(stop, K) and stop.ty == 'int' else stop.hi - 1 if isinstance(stop, Num) and stop.hi is not None else None) if len(a) < 3 else None
        ne = len(a) == 1 and isinstance(stop, (Num, K)) and ((stop.v if isinstance(stop, K) else stop.lo) or 0) > 0
        return self.new(st, node, 'iter', elem=num(lo=lo, hi=hi), ne=bool(ne), aux=('range',))
    def x_isinstance(self, a, kw, st, node, sp):
        if len(a) < 2: return BOOL
        cs = self.class_names(a[1], st)
        if cs is None: return BOOL
        rs = set(self.isinst(x, cs, st) for x in a[0])
        r = rs.pop() if len(rs) == 1 else None
        return BOOL if r is None else k(r)
    def x_issubclass(self, a, kw, st, node, sp): return BOOL
    def x_hasattr(self, a, kw, st, node, sp):
        return BOOL
    def x_callable(self, a, kw, st, node, sp): return BOOL
    def x_type(self, a, kw, st, node, sp):
        if len(a) == 1:
            out = BOT
            for x in a[0]:
                if isinstance(x, Obj): out = self.join(out, one(Cls(x.cls)))
                elif isinstance(x, Ref) and st.heap[x.oid].kind == 'inst': out = self.join(out, one(Cls(st.heap[x.oid].cls)))
                elif isinstance(x, EdgeA): out = self.join(out, one(Cls('Edge')))
                elif isinstance(x, Ref) and st.heap[x.oid].kind in ('list', 'dict', 'set', 'tuple'): out = self.join(out, one(Ext('frozenset' if st.heap[x.oid].cls == 'frozenset' else st.heap[x.oid].kind)))
                else: return TOP
            return out
        return TOP
    def x_iter(self, a, kw, st, node, sp):
        if not a: return TOP
        it = self.iterate(a[0], st, node)
        if it[0] == 'chain': return self.new(st, node, 'iter', elem=one_move(self, it[1], ('?', '?')), ne=True, aux=('chain',) + tuple(it[1:]))
        for x in a[0]:
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'iter': return a[0]
        return self.mk(st, node, 'iter', it)
    def x_next(self, a, kw, st, node, sp):
        if not a: return TOP
        v = BOT
        x = self.sole(a[0])
        if isinstance(x, Ref) and st.heap[x.oid].kind == 'iter' and st.heap[x.oid].items is not None and not self.stack[-1].unc:
            r = st.heap[x.oid]
            if not r.items:
                if len(a) > 1: return a[1]
                self.raise_(st, 'StopIteration', node)
            st.heap[x.oid] = r.copy(items=r.items[1:])
            return r.items[0]
        it = self.items_of(a[0], st, node)
        if it[0] == 'items':
            if not it[1]:
                if len(a) > 1: return a[1]
                self.raise_(st, 'StopIteration', node)
            v = it[1][0]
            for y in it[1][1:]: v = self.join(v, y)
        else:
            v = it[1]
            if not it[2] and len(a) == 1: self.may_raise(st, 'StopIteration', node)
        if len(a) > 1: v = self.join(v, a[1])
        return v
    def x_map(self, a, kw, st, node, sp):
        if len(a) < 2: return TOP
        it = self.items_of(a[1], st, node)
        if len(a) == 2 and it[0] == 'items': return self.new(st, node, 'iter', items=[self.nth(i, a[0], [x], st, node) for i, x in enumerate(it[1])])
        if not sp and len(a) > 2:
            its = [self.known_items(x, st) for x in a[1:]]
            if None not in its: return self.new(st, node, 'iter', items=[self.nth(i, a[0], list(xs), st, node) for i, xs in enumerate(zip(*its))])
        return self.new(st, node, 'iter', elem=self.nth('e', a[0], [self.elem_of(x, st, node) for x in a[1:]], st, node), ne=False)
    def x_filter(self, a, kw, st, node, sp):
        if len(a) < 2: return TOP
        its = self.known_items(a[1], st)
        if its is not None:
            keep = []
            for i, x in enumerate(its):
                t = self.truth(x if a[0] == NONE else self.nth(i, a[0], [x], st, node), st)
                if t is None: keep = None; break
                if t: keep.append(x)
            if keep is not None: return self.new(st, node, 'iter', items=keep)
        e = self.elem_of(a[1], st, node)
        if a[0] != NONE: self.call(a[0], [e], {}, st, node)
        return self.new(st, node, 'iter', elem=e, ne=False)
    def x_abs(self, a, kw, st, node, sp):
        out = BOT
        for x in a[0]:
            if isinstance(x, K) and x.ty in ('int', 'float', 'bool'): r = k(abs(x.v))
            elif isinstance(x, Num):
                lo = 0
                if x.lo is not None and x.lo > 0: lo = x.lo
                elif x.hi is not None and x.hi < 0: lo = -x.hi
                r = one(Num(x.kind, lo, None, x.tag, x.t if x.t is not None and x.lo is not None and x.lo >= 0 else T.tmax([x.t, T.scale(x.t, -1)]) if x.t is not None else None))
            else: return TOP
            out = self.join(out, r)
        return out
    def x_divmod(self, a, kw, st, node, sp):
        return self.new(st, node, 'tuple', items=[self.binop(ast.FloorDiv(), a[0], a[1], st, node), self.binop(ast.Mod(), a[0], a[1], st, node)])
    def x_pow(self, a, kw, st, node, sp):
        return self.binop(ast.Pow(), a[0], a[1], st, node) if len(a) == 2 else INT
    def written(self, a, f):
        x = self.sole(a[0]) if a and len(a[0]) == 1 else None
        if isinstance(x, K) and x.ty == 'int':
            try: return one(K('str', f(x.v)))
            except (ValueError, TypeError, OverflowError): pass
        return STR
    def x_bin(self, a, kw, st, node, sp): return self.written(a, bin)
    def x_hex(self, a, kw, st, node, sp): return self.written(a, hex)
    def x_str(self, a, kw, st, node, sp):
        x = self.sole(a[0]) if len(a) == 1 and len(a[0]) == 1 else None
        return a[0] if isinstance(x, K) and x.ty == 'str' else self.written(a, str) if len(a) == 1 else STR
    def x_format(self, a, kw, st, node, sp):
        s = self.sole(a[1]) if len(a) == 2 and len(a[1]) == 1 else None
        return self.written(a, lambda v: format(v, s.v)) if isinstance(s, K) and s.ty == 'str' else STR
    def x_repr(self, a, kw, st, node, sp): return STR
    x_chr = x_repr
    def x_int(self, a, kw, st, node, sp):
        if not a: return k(0)
        out = BOT
        for x in a[0]:
            if isinstance(x, K) and x.ty in ('int', 'bool', 'float'): r = k(int(x.v))
            elif isinstance(x, K) and x.ty == 'str':
                try: r = k(int(x.v))
                except ValueError: self.raise_(st, 'ValueError', node)
            elif isinstance(x, Num):
                r = one(Num('int', x.lo, x.hi, x.tag, x.t if x.kind == 'int' else None))
                if x.kind == 'frac' and T.is_const(x.t): r = k(int(x.t[2]))
                if x.kind == 'float': r = one(Num('int', None, None, None, None))
            elif isinstance(x, Bool): r = num(lo=0, hi=1)
            elif isinstance(x, Str): self.may_raise(st, 'ValueError', node); r = INT
            else: r = INT
            out = self.join(out, r)
        return out
    def x_bool(self, a, kw, st, node, sp):
        if not a: return FALSE
        t = self.truth(a[0], st)
        return k(t) if t is not None else one(Bool(self.cond_of(a[0], st)))
    def x_hash(self, a, kw, st, node, sp):
        h = self.hooks.get('hash')
        if h: h(self, a[0], st, node)
        for x in a[0]:
            if isinstance(x, Obj) and self.repo.find_method(x.cls, '__hash__') and not self.hooks.get('nohash'): pass
        return INT
    def x_id(self, a, kw, st, node, sp): return INT
    x_ord = x_id
    def x_print(self, a, kw, st, node, sp): return NONE
    def x_float(self, a, kw, st, node, sp):
        x = self.sole(a[0]) if a else None
        if isinstance(x, K) and x.ty in ('int', 'float'): return k(float(x.v))
        if a and any(isinstance(y, Num) and y.kind in ('int', 'frac', 'alg') for y in a[0]): self.event('float', 'an exact number is converted to floating point', node)
        return num('float')
    def x_sqrt(self, a, kw, st, node, sp):
        if a and any(isinstance(y, Num) and y.kind in ('int', 'frac', 'alg') for y in a[0]): self.event('float', 'a floating-point function is applied to an exact number', node)
        return num('float')
    x_log = x_exp = x_sqrt
    def x_fsum(self, a, kw, st, node, sp):
        for v in a:
            it = self.items_of(v, st, node)
            for w in it[1] if it[0] == 'items' else [it[1]]:
                if any(isinstance(y, Num) and y.kind in ('int', 'frac', 'alg') for y in w if not isinstance(y, tuple) or isinstance(y, Num)): self.event('float', 'a floating-point function is applied to exact numbers', node)
        return num('float')
    x_fmean = x_hypot = x_fsum
    def x_log2(self, a, kw, st, node, sp): return num('float')
    x_log10 = x_log2
    def x_isqrt(self, a, kw, st, node, sp): return NAT
    def x_gcd(self, a, kw, st, node, sp): return NAT
    x_lcm = x_comb = x_factorial_ = x_gcd
    def x_factorial(self, a, kw, st, node, sp): return num(lo=1)
    def x_floor(self, a, kw, st, node, sp): return INT
    x_ceil = x_floor
    def x_round(self, a, kw, st, node, sp):
        x = self.sole(a[0])
        return INT if len(a) == 1 else (one(x) if x else TOP)
    def x_any(self, a, kw, st, node, sp): return self.quant(a, st, node, False)
    def x_all(self, a, kw, st, node, sp): return self.quant(a, st, node, True)
    def quant(self, a, st, node, is_all):
        it = self.items_of(a[0], st, node)
        if it[0] == 'items':
            ts = [self.truth(x, st) for x in it[1]]
            if is_all and all(t is True for t in ts): return TRUE
            if not is_all and all(t is False for t in ts): return FALSE
            if (not is_all) in ts: return k(not is_all)
            cs = [self.cond_of(x, st) for x in it[1]]
            return one(Bool(T.conj(cs) if is_all else T.disj(cs)))
        t = self.truth(it[1], st)
        if is_all and t is True: return TRUE
        if not is_all and t is False: return FALSE
        if t is not None and it[2]: return k(t)
        return BOOL
    def x_list(self, a, kw, st, node, sp):
        if not a: return self.new(st, node, 'list', items=[])
        x = self.sole(a[0])
        it = self.iterate(a[0], st, node)
        if it[0] == 'chain': return self.new(st, node, 'list', elem=it[3](st, one_move(self, it[1], ('?', '?'))), ne=True, aux=('chain',) + tuple(it[1:]))
        aux = None
        if isinstance(x, Ref) and st.heap[x.oid].aux is not None and st.heap[x.oid].aux[0] in ('seq', 'rseq', 'sym'): aux = st.heap[x.oid].aux
        return self.mk(st, node, 'list', it, aux=aux)
    def x_tuple(self, a, kw, st, node, sp):
        if not a: return self.new(st, node, 'tuple', items=[])
        return self.mk(st, node, 'tuple', self.items_of(a[0], st, node))
    def x_set(self, a, kw, st, node, sp):
        if not a: return self.new(st, node, 'set', items=[])
        it = self.items_of(a[0], st, node)
        if it[0] == 'items': return self.mk_set(st, node, it[1])
        return self.mk(st, node, 'set', it)
    def x_frozenset(self, a, kw, st, node, sp):
        v = self.x_set(a, kw, st, node, sp)
        y = self.sole(v)
        if isinstance(y, Ref): st.heap[y.oid] = st.heap[y.oid].copy(cls='frozenset')
        return v
    def x_dict(self, a, kw, st, node, sp):
        extra = [(k(n), v) for n, v in kw.items() if n != '**']
        if not a: return self.new(st, node, 'dict', items=extra) if '**' not in kw else self.new(st, node, 'dict', key=STR, elem=TOP)
        outs = BOT
        for x in a[0]:
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'dict':
                r = st.heap[x.oid]
                v = self.new(st, node, 'dict', items=list(r.items) + extra, sub=('c', len(outs))) if r.items is not None else self.new(st, node, 'dict', key=r.key, elem=r.elem, ne=r.ne, sub=('c', len(outs)))
            else:
                it = self.items_of(one(x), st, node)
                if it[0] == 'items':
                    items, ok = [], True
                    for p in it[1]:
                        q = self.items_of(p, st, node)
                        if q[0] != 'items' or len(q[1]) != 2: ok = False; break
                        items = [z for z in items if not self.same_key(z[0], q[1][0], st)] + [(q[1][0], q[1][1])]
                    v = self.new(st, node, 'dict', items=items + extra) if ok else self.new(st, node, 'dict', key=TOP, elem=TOP)
                else:
                    q = self.items_of(it[1], st, node)
                    kk, vv = (q[1][0], q[1][1]) if q[0] == 'items' and len(q[1]) == 2 else (q[1], q[1]) if q[0] == 'elem' else (TOP, TOP)
                    v = self.new(st, node, 'dict', key=kk, elem=vv, ne=it[2])
            outs = self.join(outs, v)
        return outs
    def x_OrderedDict(self, a, kw, st, node, sp): return self.x_dict(a, kw, st, node, sp)
    def x_zip(self, a, kw, st, node, sp):
        if sp:
            e = sp[0][1]
            x = self.sole(e)
            if not a and isinstance(x, Ref) and st.heap[x.oid].kind == 'tuple' and st.heap[x.oid].items is not None:
                return self.new(st, node, 'iter', items=[self.new(st, node, 'tuple', elem=i, ne=True, sub=('z', j)) for j, i in enumerate(st.heap[x.oid].items)])
            inner = self.elem_of(e, st, node)
            inner = frozenset(z._replace(tag=None) if isinstance(z, (Num,)) else z for z in inner)
            return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', elem=inner, ne=False, sub='z'))
        its = [self.items_of(x, st, node) for x in a]
        known = [it for it in its if it[0] == 'items']
        if its and len(known) == len(its):
            n = min(len(it[1]) for it in its)
            return self.new(st, node, 'iter', items=[self.new(st, node, 'tuple', items=[it[1][i] for it in its], sub=('z', i)) for i in range(n)])
        es = [self.joinall(it[1]) or TOP if it[0] == 'items' else it[1] for it in its]
        return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', items=es, sub='z'), ne=all((bool(it[1]) if it[0] == 'items' else it[2]) for it in its))
    def x_enumerate(self, a, kw, st, node, sp):
        it = self.iterate(a[0], st, node)
        if it[0] == 'chain':
            oid = self.intern(('enum', self.ctx(), id(node)), 'o')
            st.heap[oid] = Rec('tuple', (NAT, one_move(self, it[1], ('?', '?'))), BOT, BOT, True)
            return self.new(st, node, 'iter', elem=one(Ref(oid)), ne=True, aux=('chain', it[1], it[2], Wrap('enum', oid)))
        start = a[1] if len(a) > 1 else kw.get('start', k(0))
        c = self.const_index(start)
        if it[0] == 'items' and c is not None:
            return self.new(st, node, 'iter', items=[self.new(st, node, 'tuple', items=[k(c + i), x], sub=('e', i)) for i, x in enumerate(it[1])])
        return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', items=[NAT, self.joinall(it[1]) if it[0] == 'items' else it[1]], sub='e'), ne=it[2] if it[0] == 'elem' else bool(it[1]))
    def x_reversed(self, a, kw, st, node, sp):
        out = BOT
        for x in a[0]:
            it = self.iterate(one(x), st, node)
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst' and self.repo.find_method(st.heap[x.oid].cls, '__reversed__'):
                out = self.join(out, self.call_dunder(x, '__reversed__', [], st, node)); continue
            if it[0] == 'chain': out = self.join(out, self.new(st, node, 'iter', elem=it[3](st, one_move(self, it[1], ('?', '?'))), ne=True, aux=('chain', it[1], not it[2], it[3]), sub=x.cls if isinstance(x, Obj) else 0)); continue
            if it[0] == 'items': out = self.join(out, self.new(st, node, 'iter', items=list(reversed(it[1])))); continue
            aux = None
            if isinstance(x, Ref):
                r = st.heap[x.oid]
                if r.aux is not None and r.aux[0] == 'seq': aux = ('rseq',) + r.aux[1:]
                elif r.aux is not None and r.aux[0] == 'rseq': aux = ('seq',) + r.aux[1:]
                elif r.aux is not None and r.aux[0] == 'sym': aux = ('sym', ('rev', r.aux[1]))
            out = self.join(out, self.new(st, node, 'iter', elem=it[1], ne=it[2], aux=aux))
        return out
    def x_sorted(self, a, kw, st, node, sp):
        it = self.items_of(a[0], st, node)
        if kw.get('key') and it[0] == 'elem' and kw['key'] != NONE: self.call(kw['key'], [it[1]], {}, st, node)
        if it[0] == 'items':
            xs = it[1]
            if all(len(x) == 1 and isinstance(next(iter(x)), K) for x in xs) and not kw:
                try: return self.new(st, node, 'list', items=[k(v) for v in sorted(next(iter(x)).v for x in xs)])
                except TypeError: pass
            if len(xs) > 1 and set(kw) <= {'key', 'reverse'}:
                ks = [self.fold_value(self.nth(i, kw['key'], [x], st, node), st) for i, x in enumerate(xs)] if kw.get('key') and kw['key'] != NONE else [self.fold_value(x, st) for x in xs]
                rv = self.truth(kw['reverse'], st) if kw.get('reverse') else False
                if rv is not None and all(c is not None for c in ks):
                    try: return self.new(st, node, 'list', items=[xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i][0], reverse=rv)])
                    except TypeError: pass
            if len(xs) <= 1: return self.new(st, node, 'list', items=xs)
            return self.new(st, node, 'list', elem=self.joinall(xs), ne=True)
        return self.new(st, node, 'list', elem=it[1], ne=it[2])
    def x_min(self, a, kw, st, node, sp): return self.minmax(a, kw, st, node, False, sp)
    def x_max(self, a, kw, st, node, sp): return self.minmax(a, kw, st, node, True, sp)
    def minmax(self, a, kw, st, node, is_max, sp):
        if len(a) == 1 and not sp:
            it = self.items_of(a[0], st, node)
            if it[0] != 'items':
                if kw.get('key'): self.call(kw['key'], [it[1]], {}, st, node)
                v = it[1]
                if kw.get('default'): v = self.join(v, kw['default'])
                elif not it[2]: self.may_raise(st, 'ValueError', node)
                return frozenset(x._replace(t=None) if isinstance(x, (Num, EdgeA)) else x for x in v)
            vals = it[1]
        else: vals = a + [x[1] for x in sp]
        if not vals:
            if kw.get('default'): return kw['default']
            self.raise_(st, 'ValueError', node)
        if not kw.get('key') and all(len(x) == 1 and edge_const(next(iter(x))) is not None for x in vals) and any(isinstance(next(iter(x)), EdgeA) for x in vals):
            return (max if is_max else min)(vals, key=lambda x: edge_const(next(iter(x))))
        if kw.get('key'):
            ks = [self.fold_value(self.nth(i, kw['key'], [x], st, node), st) for i, x in enumerate(vals)]
            if len(vals) == 1: return vals[0]
            if all(c is not None for c in ks):
                try: return (max if is_max else min)(zip(vals, ks), key=lambda p: p[1][0])[0]
                except TypeError: pass
            return frozenset(x._replace(t=None) if isinstance(x, (Num, EdgeA)) else x for x in self.joinall(vals))
        if all(self.is_num(x) for v in vals for x in v):
            for i in range(1, len(vals)): self.check_float_mix(vals[i - 1], vals[i], 'comparison', st, node); self.huge(vals[i - 1], vals[i], node)
            xs = [x for v in vals for x in v]
            if all(isinstance(x, K) for x in xs) and all(len(v) == 1 for v in vals): return k((max if is_max else min)(x.v for x in xs))
            f = lambda x: x if isinstance(x, Num) else Num('int', int(x.v), int(x.v), None, T.const(int(x.v)) if x.ty == 'int' else None) if isinstance(x, K) else Num('int', 0, 1, None, None)
            xs = [f(x) for x in xs]
            los, his = [x.lo for x in xs], [x.hi for x in xs]
            if is_max:
                if all(len(v) == 1 for v in vals): lo = max([l for l in los if l is not None], default=None)
                else: lo = None if None in los else min(los)
                hi = None if None in his else max(his)
            else:
                hi = max(his) if None not in his and not all(len(v) == 1 for v in vals) else min([h for h in his if h is not None], default=None) if all(len(v) == 1 for v in vals) else None
                lo = None if None in los else min(los)
            kinds = set(x.kind for x in xs)
            kind = 'float' if 'float' in kinds else 'np' if 'np' in kinds else 'alg' if 'alg' in kinds else 'frac' if 'frac' in kinds else 'int'
            tags = set(x.tag for x in xs if x.tag is not None)
            t = None
            if all(len(v) == 1 for v in vals) and all(x.t is not None for x in xs):
                t = (T.tmax if is_max else T.tmin)([x.t for x in xs])
                if T.is_const(t) and kind == 'int' and t[2] == int(t[2]): return k(int(t[2]))
            tag = tags.pop() if len(tags) == 1 else 'w' if 'w' in tags else None
            if t is None and kind in ('alg', 'frac') and not any(isinstance(z, K) and z.ty == 'float' for v in vals for z in v): return frozenset(Num(kd, lo, hi, tag, None) for kd in kinds)
            return one(Num(kind, lo, hi, tag, t))
        return frozenset(x._replace(t=None) if isinstance(x, (Num, EdgeA)) and len(vals) > 1 else x for x in self.joinall(vals))
    def x_sum(self, a, kw, st, node, sp):
        it = self.items_of(a[0], st, node)
        start = a[1] if len(a) > 1 else kw.get('start', k(0))
        if it[0] == 'items':
            v = start
            for x in it[1]: v = self.binop(ast.Add(), v, x, st, node)
            return v
        if all(self.is_num(x) for x in it[1]):
            if all(isinstance(x, (K, Num)) and self.eq_vals(one(x), k(0), st) is True for x in it[1]): return start
            out = BOT
            for x in it[1]:
                lo = 0 if (isinstance(x, Num) and x.lo is not None and x.lo >= 0 or isinstance(x, K) and x.v >= 0 or isinstance(x, Bool)) and start == k(0) else None
                kind = self.kind_of(x) if not isinstance(x, Bool) else 'int'
                out = self.join(out, num('int' if kind == 'bool' else kind, lo=lo, tag=None))
            return self.join(out, num(lo=0, hi=0) if start == k(0) else start)
        v = self.binop(ast.Add(), start, it[1], st, node)
        if v == TOP or v == start: return v
        w = self.binop(ast.Add(), v, it[1], st, node)
        return self.join(self.join(v, w), start)
    def x_getattr(self, a, kw, st, node, sp):
        n = self.str_of(a[1]) if len(a) > 1 else None
        if n is None: return TOP
        if len(a) > 2:
            ints = lambda x: isinstance(x, K) and x.ty in ('int', 'bool', 'NoneType') or isinstance(x, Num)
            if all(ints(x) for x in a[0]) and n not in dir(0.5) + dir(1): return a[2]
            if len(a[0]) == 1 and isinstance(self.sole(a[0]), EdgeA) and n in ('label', 'index'): return self.getattr_(a[0], n, st, node, quiet=True)
            try: return self.join(self.getattr_(a[0], n, st, node, quiet=True), a[2])
            except Dead: return a[2]
        return self.getattr_(a[0], n, st, node)
    def x_setattr(self, a, kw, st, node, sp):
        n = self.str_of(a[1]) if len(a) > 2 else None
        if n is not None:
            for x in a[0]: self.setattr_(x, n, a[2], st, node)
        return NONE
    def x_slice(self, a, kw, st, node, sp):
        if not a or len(a) > 3: return one(Obj('slice', (), 'fresh', None))
        return self.slice_of(*((None, a[0], None) if len(a) == 1 else tuple(a) + (None,) * (3 - len(a))), st, node)

    # ------------------------------------------------------------ library classes
    def x_Fraction(self, a, kw, st, node, sp):
        if len(a) == 2:
            d = self.sole(a[1])
            if isinstance(d, K) and d.v == 0: self.raise_(st, 'ZeroDivisionError', node)
        if len(a) == 1:   # Fraction(float) is exact
            x = self.sole(a[0])
            if isinstance(x, Num) and x.kind in ('int', 'frac'): return one(x._replace(kind='frac'))
            return num('frac')
        x, y = self.sole(a[0]), self.sole(a[1])
        t = None
        if x is not None and y is not None and isinstance(y, K) and y.v and self.term(one(x)) is not None:
            from fractions import Fraction as Q
            t = T.scale(self.term(one(x)), Q(1, y.v))
        return num('frac', t=t)
    def x_Counter(self, a, kw, st, node, sp):
        if not a: return self.new(st, node, 'dict', items=[], aux=('counter',))
        it = self.items_of(a[0], st, node)
        for x in a[0]:
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'dict':
                kk, e = self.summary(st.heap[x.oid])
                return self.new(st, node, 'dict', key=kk, elem=e, aux=('counter',))
        kk = self.joinall(it[1]) if it[0] == 'items' else it[1]
        if it[0] == 'items':
            from exprs import edge_const
            cs = [edge_const(self.sole(x)) if len(x) == 1 else None for x in it[1]]
            if None not in cs:                            # edges and their labels count alike
                return self.new(st, node, 'dict', items=[(it[1][cs.index(c)], k(cs.count(c))) for c in dict.fromkeys(cs)], aux=('counter',))
        if it[0] == 'items' and all(self.exact_key(x) for x in it[1]):
            ks = []
            for x in it[1]:
                if x not in ks: ks.append(x)
            if all(isinstance(next(iter(x)), K) for x in ks) or len(ks) == 1:
                return self.new(st, node, 'dict', items=[(x, k(it[1].count(x))) for x in ks], aux=('counter',))
        if it[0] == 'items':                              # which items are equal is decided
            ks = []
            for x in it[1]:
                for c in ks:
                    r = self.eq_vals(c[0], x, st)
                    if r is None: ks = None; break
                    if r: c[1] += 1; break
                else: ks.append([x, 1]); continue
                if ks is None: break
            if ks is not None: return self.new(st, node, 'dict', items=[(x, k(n)) for x, n in ks], aux=('counter',))
        return self.new(st, node, 'dict', key=kk, elem=num(lo=1), aux=('counter',))
    def x_defaultdict(self, a, kw, st, node, sp):
        f = self.sole(a[0]) if a else None
        d = TOP
        if isinstance(f, Ext) and f.name in ('list', 'set', 'dict'): d = self.new(st, node, f.name, elem=BOT, ne=False, sub='dd')
        elif isinstance(f, Ext) and f.name == 'int': d = k(0)
        elif f is not None: d = self.call(a[0], [], {}, st, node)
        return self.new(st, node, 'dict', items=None, elem=BOT, key=BOT, ne=False, aux=('default', d))
    def x_namedtuple(self, a, kw, st, node, sp):
        names = None
        if len(a) > 1:
            x = self.sole(a[1])
            if isinstance(x, Ref) and st.heap[x.oid].items is not None: names = [self.str_of(i) for i in st.heap[x.oid].items]
            elif isinstance(x, K): names = x.v.replace(',', ' ').split()
        return one(Ext('namedtuple:' + (self.str_of(a[0]) or '?') + ':' + ','.join(str(n) for n in names or [])))
    def make_nt(self, name, pos, kw, st, node, spread):
        parts = name.split(':')
        if len(parts) == 2: names = self.nt_names(parts[1])
        else: names = parts[2].split(',') if parts[2] else []
        if spread or not names: return TOP
        vals = dict(zip(names, pos)); vals.update({a: b for a, b in kw.items() if a in names})
        if len(vals) < len(names): self.raise_(st, 'TypeError', node)
        return self.new(st, node, 'tuple', items=[vals[n] for n in names], cls=parts[1], aux=('nt', tuple(names)))
    def nt_names(self, name):
        for m in self.repo.modules.values():
            b = m.names.get(name)
            if b and b[0] == 'expr' and isinstance(b[1], ast.Call) and len(b[1].args) > 1:
                e = b[1].args[1]
                if isinstance(e, (ast.List, ast.Tuple)): return [x.value for x in e.elts if isinstance(x, ast.Constant)]
                if isinstance(e, ast.Constant): return e.value.replace(',', ' ').split()
        return []
    def x_deepcopy(self, a, kw, st, node, sp):
        seen = {}
        def cp(v, depth=0):
            out = BOT
            for x in v:
                if isinstance(x, Ref):
                    r = st.heap[x.oid]
                    key = x.oid
                    if key in seen: out = self.join(out, one(Ref(seen[key]))); continue
                    oid = self.intern(('copy', self.ctx(), id(node), x.oid), 'o')
                    seen[key] = oid
                    its = r.items
                    if its is not None: its = tuple((cp(i[0]), cp(i[1])) if r.kind == 'dict' else cp(i) for i in its)
                    st.heap[oid] = r.copy(items=its, elem=cp(r.elem), key=cp(r.key), org='fresh', fields=None if r.fields is None else {n: cp(v) for n, v in r.fields.items()})
                    out = self.join(out, one(Ref(oid)))
                elif isinstance(x, Obj): out = self.join(out, one(x._replace(org='fresh')))
                else: out = self.join(out, one(x))
            return out
        return cp(a[0])
    def x_copy(self, a, kw, st, node, sp):
        if not a: return TOP
        out = BOT
        for x in a[0]:
            if isinstance(x, Ref): out = self.join(out, self.alloc(st, node, st.heap[x.oid].copy(org='fresh'), ('cp', x.oid)))
            elif isinstance(x, Obj): out = self.join(out, one(x._replace(org='fresh')))
            else: out = self.join(out, one(x))
        return out
    def x_Queue(self, a, kw, st, node, sp): return self.new(st, node, 'queue', elem=BOT)
    x_LifoQueue = x_PriorityQueue = x_Queue
    def x_deque(self, a, kw, st, node, sp):
        return self.x_list(a, kw, st, node, sp)
    def x_combinations(self, a, kw, st, node, sp):
        its = self.known_items(a[0], st)
        r = self.const_index(a[1] if len(a) > 1 else kw.get('r', TOP))
        if its is not None and r is not None and 0 <= r <= 4 and len(its) <= 12: return self.tuples(st, node, itertools.combinations(its, r))
        return self.some_combination(a, kw, st, node, sp)
    def some_combination(self, a, kw, st, node, sp):
        e = self.elem_of(a[0], st, node)
        r = self.const_index(a[1] if len(a) > 1 else kw.get('r', TOP))
        t = self.new(st, node, 'tuple', items=[e] * r, sub='t') if r is not None and r < 6 else self.new(st, node, 'tuple', elem=e, sub='t')
        return self.new(st, node, 'iter', elem=t)
    def x_permutations(self, a, kw, st, node, sp):
        its = self.known_items(a[0], st)
        r = self.const_index(a[1] if len(a) > 1 else kw.get('r', TOP))
        if its is not None and len(its) <= 4 and (r is not None or len(a) == 1 and not kw): return self.tuples(st, node, itertools.permutations(its, r))
        e = self.elem_of(a[0], st, node)
        return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', elem=e, sub='t'))
    x_combinations_with_replacement = some_combination
    def x_product(self, a, kw, st, node, sp):
        if sp: return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', elem=self.elem_of(sp[0][1], st, node), sub='t'))
        its = [self.known_items(x, st) for x in a]
        n = self.const_index(kw['repeat']) if 'repeat' in kw else 1
        if None not in its and n is not None and n >= 0:
            size = 1
            for i in its * n: size *= len(i)
            if size <= 256: return self.tuples(st, node, itertools.product(*its, repeat=n))
        if 'repeat' in kw: return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', elem=self.joinall(self.elem_of(x, st, node) for x in a), sub='t'))
        return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', items=[self.elem_of(x, st, node) for x in a], sub='t'))
    def x_chain(self, a, kw, st, node, sp):
        e = BOT
        its = [self.items_of(x, st, node) for x in a]
        if not sp and all(it[0] == 'items' for it in its): return self.new(st, node, 'iter', items=[x for it in its for x in it[1]])
        for it in its: e = self.join(e, self.joinall(it[1]) if it[0] == 'items' else it[1])
        for x in sp: e = self.join(e, self.elem_of(x[1], st, node))
        return self.new(st, node, 'iter', elem=e)
    def x_fromkeys(self, a, kw, st, node, sp):
        v = a[1] if len(a) > 1 else NONE
        it = self.items_of(a[0], st, node)
        if it[0] == 'items':
            keep = []
            for x in it[1]:
                rs = [x == y and self.exact_key(x) or self.eq_vals(x, y, st) for y in keep]
                if True in rs: continue
                if None in rs: keep = None; break
                keep.append(x)
            if keep is not None: return self.new(st, node, 'dict', items=[(x, v) for x in keep])
        return self.new(st, node, 'dict', key=self.joinall(it[1]) if it[0] == 'items' else it[1], elem=v, ne=bool(it[1]) if it[0] == 'items' else it[2])
    def x_from_iterable(self, a, kw, st, node, sp):
        its = self.known_items(a[0], st)
        if its is not None:
            parts = []
            for i in its:
                it = self.items_of(i, st, node) if len(i) == 1 and isinstance(self.sole(i), Ref) else (None,)
                if it[0] != 'items': break
                parts.extend(it[1])
            else: return self.new(st, node, 'iter', items=parts)
        return self.new(st, node, 'iter', elem=self.elem_of(self.elem_of(a[0], st, node), st, node))
    def x_islice(self, a, kw, st, node, sp):
        its = self.known_items(a[0], st)
        cs = [(None,) if x == NONE else (c,) if (c := self.const_index(x)) is not None else None for x in a[1:]]
        if its is not None and cs and None not in cs:
            stop = slice(*[c[0] for c in cs]).stop
            self.used(a[0], st, its[stop:] if stop is not None else ())
            return self.new(st, node, 'iter', items=its[slice(*[c[0] for c in cs])])
        return self.new(st, node, 'iter', elem=self.elem_of(a[0], st, node))
    def x_count(self, a, kw, st, node, sp): return self.new(st, node, 'iter', elem=INT, ne=True)
    def x_repeat(self, a, kw, st, node, sp):
        n = a[1] if len(a) > 1 else kw.get('times')
        n = self.const_index(n) if n is not None else None
        if n is not None and n <= 64: return self.new(st, node, 'iter', items=[a[0]] * max(n, 0))
        return self.new(st, node, 'iter', elem=a[0], ne=False)
    x_cycle = lambda self, a, kw, st, node, sp: TOP
    def split(self, a, st, node):
        """The items before the first one that fails a test, and the rest, or None."""
        its = self.known_items(a[1], st) if len(a) == 2 else None
        if its is None: return None
        for i, x in enumerate(its):
            t = self.truth(self.nth(i, a[0], [x], st, node), st)
            if t is None: return None
            if not t: self.used(a[1], st, its[i + 1:]); return its[:i], its[i:]
        self.used(a[1], st)
        return its, []
    def x_takewhile(self, a, kw, st, node, sp):
        p = self.split(a, st, node)
        return TOP if p is None else self.new(st, node, 'iter', items=p[0])
    def x_dropwhile(self, a, kw, st, node, sp):
        p = self.split(a, st, node)
        return TOP if p is None else self.new(st, node, 'iter', items=p[1])
    def x_accumulate(self, a, kw, st, node, sp):
        its = self.known_items(a[0], st) if a else None
        if its is None or sp: return TOP
        f = a[1] if len(a) > 1 else kw.get('func')
        start = kw.get('initial')
        out = [start] if start is not None and start != NONE else []
        for i, x in enumerate(its):
            if not out: out.append(x)
            else: out.append(self.nth(i, one(Ext('operator.add')) if f is None or f == NONE else f, [out[-1], x], st, node))
        return self.new(st, node, 'iter', items=out)
    def x_starmap(self, a, kw, st, node, sp):
        its = self.known_items(a[1], st) if len(a) == 2 else None
        rows = [self.known_items(i, st) for i in its] if its is not None else [None]
        if None in rows: return TOP
        return self.new(st, node, 'iter', items=[self.nth(i, a[0], r, st, node) for i, r in enumerate(rows)])
    def x_pairwise(self, a, kw, st, node, sp):
        its = self.known_items(a[0], st) if a else None
        if its is None: return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', items=[self.elem_of(a[0], st, node)] * 2, sub='t')) if a else TOP
        return self.tuples(st, node, zip(its, its[1:]))
    def x_zip_longest(self, a, kw, st, node, sp):
        its = [self.known_items(x, st) for x in a]
        if None in its or sp: return TOP
        return self.tuples(st, node, itertools.zip_longest(*its, fillvalue=kw.get('fillvalue', NONE)))
    def x_groupby(self, a, kw, st, node, sp):
        e = self.elem_of(a[0], st, node)
        kv = e
        f = kw.get('key') or (a[1] if len(a) > 1 else None)
        if f: kv = self.call(f, [e], {}, st, node)
        return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', items=[kv, self.new(st, node, 'iter', elem=e, ne=True, sub='g')], sub='t'))
    def x_reduce(self, a, kw, st, node, sp):
        its = self.known_items(a[1], st) if len(a) > 1 else None
        if its is not None and (its or len(a) > 2):
            its = list(a[2:3]) + its
            v = its[0]
            for i, x in enumerate(its[1:]): v = self.nth(i, a[0], [v, x], st, node)
            return v
        v = a[2] if len(a) > 2 else BOT
        e = self.elem_of(a[1], st, node)
        v = self.join(v, e)
        for _ in range(2): v = self.join(v, self.call(a[0], [v, e], {}, st, node))
        return v
    def x_set_cache(self, a, kw, st, node, sp): return NONE

    # ------------------------------------------------------------ methods of builtin objects
    MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'fill', 'resize', 'itemset', 'appendleft', 'popleft', 'rotate'}
    def call_bm(self, bm, args, kw, st, node):
        x, n = bm.recv, bm.name
        a = [v for v in args if not isinstance(v, tuple)]
        sp = [v for v in args if isinstance(v, tuple)]
        if isinstance(x, EdgeA):
            c = edge_const(x)
            if n == 'sign' and c is not None: return k(1 if c >= 0 else -1)
            if n == 'set_sign' and c is not None and a and self.const_index(a[0]) in (1, -1): return one(EdgeA(x.tag, ('edge', T.const(c if (c >= 0) == (self.const_index(a[0]) == 1) else ~c))))
            if n == 'sign':
                h = self.hooks.get('edge_sign')
                r = h(self, x) if h else None
                return r if r is not None else one(Num('int', -1, 1, None, T.sym(('sign', x.t)) if x.t is not None else None))
            if n == 'set_sign': return one(EdgeA(x.tag, None if x.t is None else ('setsign', x.t, self.key_of(a[0]) if a else None)))
            return TOP
        if isinstance(x, (K, Str)) and (isinstance(x, Str) or x.ty == 'str'): return self.str_method(x, n, a, st, node)
        if isinstance(x, (Num, K, Bool)):
            if n == 'bit_length': return k(x.v.bit_length()) if isinstance(x, K) and isinstance(x.v, int) else NAT
            if n in ('limit_denominator',): return num('frac')
            if n == 'as_integer_ratio': return self.new(st, node, 'tuple', items=[INT, INT])
            return TOP
        if not isinstance(x, Ref): return TOP
        r = st.heap[x.oid]
        if n in self.MUT and r.kind in ('list', 'dict', 'set', 'nd', 'queue'): self.mutate(st, x.oid, node)
        f = getattr(self, 'm_%s_%s' % (r.kind, n), None)
        if f is None: return TOP
        v = f(x, r, a, kw, st, node)
        return v if v else (TOP if v is None or not v else v)
    def fold_value(self, v, st):
        """The Python constant a value stands for: (value,) or None."""
        x = self.sole(v)
        if isinstance(x, K) and x.ty in ('int', 'str', 'bool', 'NoneType'): return (x.v,)
        if isinstance(x, Ref):
            r = st.heap[x.oid]
            if r.kind in ('list', 'tuple') and r.items is not None:
                out = [self.fold_value(i, st) for i in r.items]
                if all(o is not None for o in out): return ([o[0] for o in out] if r.kind == 'list' else tuple(o[0] for o in out),)
        return None
    def unfold(self, v, st, node):
        """The abstract value of a Python constant."""
        if v is None or isinstance(v, (int, str, bool)): return k(v)
        if isinstance(v, (list, tuple)): return self.new(st, node, type(v).__name__, items=[self.unfold(i, st, node) for i in v], sub=('unf', len(v)))
        if isinstance(v, dict): return self.new(st, node, 'dict', items=[(k(a), self.unfold(i, st, node)) for a, i in v.items()], sub=('unfd', len(v)))
        return TOP
    def str_method(self, x, n, a, st, node):
        if isinstance(x, K) and n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'islower', 'isupper', 'split', 'rsplit', 'splitlines', 'find', 'index', 'count', 'join', 'swapcase', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'partition', 'isnumeric', 'isdecimal', 'title', 'capitalize', 'removeprefix', 'removesuffix'):
            args = [self.fold_value(v, st) for v in a]
            if n == 'join' and a and args[0] is None:
                it = self.items_of(a[0], st, node)
                if it[0] == 'items' and all(self.str_of(i) is not None for i in it[1]): args = [([self.str_of(i) for i in it[1]],)]
            if all(v is not None for v in args):
                try: return self.unfold(getattr(x.v, n)(*[v[0] for v in args]), st, node)
                except ValueError: self.raise_(st, 'ValueError', node)
                except Exception: pass
        if n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'islower', 'isupper'): return BOOL
        if n in ('split', 'splitlines', 'rsplit'):
            if isinstance(x, K) and all(self.str_of(v) is not None for v in a):
                return self.new(st, node, 'list', items=[k(s) for s in x.v.split(*[self.str_of(v) for v in a])])
            return self.new(st, node, 'list', elem=STR, ne=True)
        if n in ('find', 'index', 'count'): return INT if n == 'find' else NAT
        if n == 'join':
            if a: self.elem_of(a[0], st, node)
            return STR
        if isinstance(x, K) and n in ('swapcase', 'lower', 'upper', 'strip') and not a: return k(getattr(x.v, n)())
        return STR
    def upd(self, st, x, **kw): st.heap[x.oid] = st.heap[x.oid].copy(**kw)
    def weak_add(self, st, x, v, key=None):
        r = st.heap[x.oid]
        kk, e = self.summary(r)
        self.upd(st, x, items=None, elem=self.join(e, v), key=self.join(kk, key) if key is not None else kk, ne=True, aux=r.aux if r.aux is None or r.aux[0] not in ('seq', 'rseq', 'chain', 'sym', 'range') else None)
    def m_list_append(self, x, r, a, kw, st, node):
        if r.items is not None and not (self.stack[-1].unc and len(r.items) > 16): self.upd(st, x, items=r.items + (a[0],))
        else: self.weak_add(st, x, a[0])
        return NONE
    def m_list_extend(self, x, r, a, kw, st, node): self.list_extend(st, x.oid, a[0], node); return NONE
    def m_list_insert(self, x, r, a, kw, st, node):
        i = self.const_index(a[0])
        if r.items is not None and i is not None:
            l = list(r.items); l.insert(i, a[1]); self.upd(st, x, items=tuple(l))
        else: self.weak_add(st, x, a[1])
        return NONE
    def m_list_pop(self, x, r, a, kw, st, node):
        i = self.const_index(a[0]) if a else -1
        if r.items is not None:
            if not r.items: self.raise_(st, 'IndexError', node)
            if i is not None and -len(r.items) <= i < len(r.items):
                l = list(r.items); v = l.pop(i); self.upd(st, x, items=tuple(l)); return v
            e = self.summary(r)[1]
            self.upd(st, x, items=None, elem=e, ne=False)
            return e
        self.upd(st, x, ne=False)
        if not r.ne: self.may_raise(st, 'IndexError', node)
        return r.elem or TOP
    def m_list_remove(self, x, r, a, kw, st, node):
        self.upd(st, x, items=None, elem=self.summary(r)[1], ne=False); return NONE
    def m_list_clear(self, x, r, a, kw, st, node): self.upd(st, x, items=()); return NONE
    def m_list_sort(self, x, r, a, kw, st, node):
        if r.items is not None and len(r.items) > 1: self.upd(st, x, items=None, elem=self.summary(r)[1], ne=True)
        if kw.get('key'): self.call(kw['key'], [self.summary(r)[1] or TOP], {}, st, node)
        return NONE
    def m_list_reverse(self, x, r, a, kw, st, node):
        if r.items is not None: self.upd(st, x, items=tuple(reversed(r.items)))
        elif r.aux is not None and r.aux[0] in ('seq', 'rseq'): self.upd(st, x, aux=({'seq': 'rseq', 'rseq': 'seq'}[r.aux[0]],) + r.aux[1:])
        elif r.aux is not None and r.aux[0] == 'chain': self.upd(st, x, aux=('chain', r.aux[1], not r.aux[2], r.aux[3]))
        return NONE
    def m_list_index(self, x, r, a, kw, st, node):
        if r.items is not None:
            for i, it in enumerate(r.items):
                t = self.eq_vals(it, a[0], st)
                if t is True: return k(i)
                if t is None: break
            else: self.raise_(st, 'ValueError', node)
        self.may_raise(st, 'ValueError', node)
        return NAT
    m_tuple_index = m_list_index
    def m_list_count(self, x, r, a, kw, st, node): return NAT
    m_tuple_count = m_list_count
    def m_list_copy(self, x, r, a, kw, st, node): return self.alloc(st, node, r.copy(org='fresh'), 'cp')
    m_dict_copy = m_set_copy = m_nd_copy = m_list_copy
    # dict
    def m_dict_items(self, x, r, a, kw, st, node):
        if r.items is not None: return self.new(st, node, 'iter', items=[self.new(st, node, 'tuple', items=[i[0], i[1]], sub=('it', j)) for j, i in enumerate(r.items)], aux=('view',))
        e = r.elem
        if r.aux is not None and r.aux[0] == 'default': e = self.join(e, r.aux[1])
        return self.new(st, node, 'iter', elem=self.new(st, node, 'tuple', items=[r.key or TOP, e or TOP], sub='it'), ne=r.ne, aux=('view',))
    def m_dict_keys(self, x, r, a, kw, st, node):
        if r.items is not None: return self.new(st, node, 'iter', items=[i[0] for i in r.items], aux=('view',))
        return self.new(st, node, 'iter', elem=r.key or TOP, ne=r.ne, aux=('view',))
    def m_dict_values(self, x, r, a, kw, st, node):
        if r.items is not None: return self.new(st, node, 'iter', items=[i[1] for i in r.items], aux=('view',))
        e = r.elem
        if r.aux is not None and r.aux[0] == 'default': e = self.join(e, r.aux[1])
        return self.new(st, node, 'iter', elem=e or TOP, ne=r.ne, aux=('view',))
    def m_dict_get(self, x, r, a, kw, st, node):
        d = a[1] if len(a) > 1 else NONE
        if r.items is not None and self.decided_key(a[0], [i[0] for i in r.items], st):
            ts = [(self.eq_vals(i[0], a[0], st), i[1]) for i in r.items]
            for t, v in ts:
                if t: return v
            if all(t is False for t, _ in ts): return d
        return self.join(self.summary(r)[1], d)
    def m_dict_setdefault(self, x, r, a, kw, st, node):
        d = a[1] if len(a) > 1 else NONE
        if r.items is not None and self.decided_key(a[0], [i[0] for i in r.items], st):
            for i in r.items:
                if self.same_key(i[0], a[0], st): return i[1]
            if all(self.eq_vals(i[0], a[0], st) is False for i in r.items): self.upd(st, x, items=r.items + ((a[0], d),), ne=True); return d
        self.weak_add(st, x, d, a[0])
        return self.join(self.summary(r)[1], d)
    def m_dict_pop(self, x, r, a, kw, st, node):
        kk, e = self.summary(r)
        if r.items is not None and self.decided_key(a[0], [i[0] for i in r.items], st):
            hit = [i for i in r.items if self.eq_vals(i[0], a[0], st)]
            if hit: self.upd(st, x, items=tuple(i for i in r.items if i is not hit[0])); return hit[0][1]
        self.upd(st, x, items=None, key=kk, elem=e, ne=False)
        return self.join(e, a[1]) if len(a) > 1 else e or TOP
    def m_dict_popitem(self, x, r, a, kw, st, node):
        kk, e = self.summary(r); self.upd(st, x, items=None, key=kk, elem=e, ne=False)
        return self.new(st, node, 'tuple', items=[kk or TOP, e or TOP])
    def m_dict_clear(self, x, r, a, kw, st, node): self.upd(st, x, items=()); return NONE
    def m_dict_update(self, x, r, a, kw, st, node):
        for v in a:
            d = self.x_dict([v], {}, st, node, [])
            for y in d:
                if isinstance(y, Ref):
                    s = st.heap[y.oid]
                    cur = st.heap[x.oid]
                    if s.items is not None and cur.items is not None and all(self.exact_key(i[0]) for i in s.items + cur.items):
                        items = list(cur.items)
                        for i in s.items: items = [z for z in items if z[0] != i[0]] + [i]
                        self.upd(st, x, items=tuple(items))
                    else:
                        kk, e = self.summary(s); k0, e0 = self.summary(cur)
                        self.upd(st, x, items=None, key=self.join(k0, kk), elem=self.join(e0, e), ne=cur.ne or s.ne or bool(cur.items))
                else: self.upd(st, x, items=None, key=TOP, elem=TOP)
        return NONE
    # set
    def m_set_add(self, x, r, a, kw, st, node):
        if r.items is not None and self.decided_key(a[0], r.items, st) and (self.inst_key(a[0], st) or all(self.exact_key(i) for i in r.items)) and not self.stack[-1].unc:
            if not any(i == a[0] or self.same_key(i, a[0], st) for i in r.items): self.upd(st, x, items=r.items + (a[0],))
        elif r.items == (): self.upd(st, x, items=None, elem=a[0], ne=True)
        else: self.weak_add(st, x, a[0])
        return NONE
    def m_set_update(self, x, r, a, kw, st, node):
        for v in a: self.weak_add(st, x, self.elem_of(v, st, node))
        return NONE
    def m_set_discard(self, x, r, a, kw, st, node): self.upd(st, x, items=None, elem=self.summary(r)[1], ne=False); return NONE
    m_set_remove = m_set_discard
    def m_set_clear(self, x, r, a, kw, st, node): self.upd(st, x, items=()); return NONE
    def m_set_pop(self, x, r, a, kw, st, node):
        e = self.summary(r)[1]; self.upd(st, x, items=None, elem=e, ne=False); return e or TOP
    def m_set_union(self, x, r, a, kw, st, node):
        e = self.summary(r)[1]
        for v in a: e = self.join(e, self.elem_of(v, st, node))
        return self.new(st, node, 'set', elem=e)
    def m_set_intersection(self, x, r, a, kw, st, node): return self.new(st, node, 'set', elem=self.summary(r)[1])
    m_set_difference = m_set_symmetric_difference = m_set_intersection
    def m_set_issubset(self, x, r, a, kw, st, node): return BOOL
    m_set_issuperset = m_set_isdisjoint = m_set_issubset
    # queue
    def m_queue_put(self, x, r, a, kw, st, node): self.upd(st, x, elem=self.join(r.elem, a[0])); return NONE
    def m_queue_get(self, x, r, a, kw, st, node): return r.elem or TOP
    def m_queue_empty(self, x, r, a, kw, st, node): return BOOL
    def m_queue_qsize(self, x, r, a, kw, st, node): return NAT

    # ------------------------------------------------------------ operators on containers
    def binop_ref(self, op, x, y, st, node):
        rx = st.heap[x.oid] if isinstance(x, Ref) else None
        ry = st.heap[y.oid] if isinstance(y, Ref) else None
        if rx is not None and rx.kind == 'nd' or ry is not None and ry.kind == 'nd': return self.nd_binop(op, x, y, st, node)
        if rx is not None and rx.kind in ('list', 'tuple') and ry is not None and ry.kind in ('list', 'tuple') and isinstance(op, ast.Add):
            if rx.kind != ry.kind: self.raise_(st, 'TypeError', node)
            if rx.items is not None and ry.items is not None: return self.new(st, node, rx.kind, items=rx.items + ry.items, sub=(x.oid, y.oid))
            e = self.join(self.summary(rx)[1], self.summary(ry)[1])
            aux = None
            sx, sy = self.seq_of(rx), self.seq_of(ry)
            if sx and sy:
                if not st.same(sx[0], sy[1]): self.event('mix', 'moves are concatenated whose triangulations do not match', node)
                aux = ('seq', sy[0], sx[1])
            if rx.aux and ry.aux and rx.aux[0] == ry.aux[0] == 'sym': aux = ('sym', ('cat', rx.aux[1], ry.aux[1]))
            return self.new(st, node, rx.kind, elem=e, ne=rx.ne or ry.ne or bool(rx.items) or bool(ry.items), aux=aux, sub=(x.oid, y.oid))
        for a, b in ((rx, y), (ry, x)):
            if a is not None and a.kind in ('list', 'tuple') and isinstance(op, ast.Mult) and not isinstance(b, Ref):
                n = self.const_index(one(b)) if self.is_num(b) else None
                if a.items is not None and n is not None and n * len(a.items) <= max(40, self.wide): return self.new(st, node, a.kind, items=a.items * n)
                if not self.is_num(b) and not isinstance(b, Top): return None
                aux = None
                s = self.seq_of(a)
                if s and st.same(s[0], s[1]): aux = ('seq',) + s
                if a.aux and a.aux[0] == 'sym': aux = ('sym', ('rep', a.aux[1], self.key_of(one(b))))
                return self.new(st, node, a.kind, elem=self.summary(a)[1], ne=False, aux=aux)
        if rx is not None and rx.kind == 'set' and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            e = self.summary(rx)[1]
            if isinstance(op, (ast.BitOr, ast.BitXor)) and ry is not None: e = self.join(e, self.summary(ry)[1])
            return self.new(st, node, 'set', elem=e)
        if rx is not None and rx.kind == 'dict' and ry is not None and ry.kind == 'dict':
            k1, e1 = self.summary(rx); k2, e2 = self.summary(ry)
            return self.new(st, node, 'dict', key=self.join(k1, k2), elem=self.join(e1, e2), aux=rx.aux)
        if rx is not None and rx.kind == 'inst' or ry is not None and ry.kind == 'inst': return None
        if rx is not None and rx.kind in ('list', 'tuple', 'dict', 'set') and not isinstance(y, (Obj, Top)) and not (ry is not None and ry.kind == 'inst'):
            if self.is_num(y) or isinstance(y, K): self.raise_(st, 'TypeError', node)
        if isinstance(x, Obj) or isinstance(y, Obj): return None
        return TOP
    def seq_of(self, r):
        if r.aux is None: return None
        if r.aux[0] == 'seq': return (r.aux[1], r.aux[2])
        if r.aux[0] == 'chain' and not r.aux[2] and r.aux[3].how == 'id': return tuple(r.aux[1].fr)
        return None

    # ------------------------------------------------------------ numpy
    def call_np(self, n, a, kw, st, node):
        dt = kw.get('dtype')
        obj = dt is not None and any(isinstance(x, Ext) and x.name == 'object' or isinstance(x, K) and x.v in ('object', 'O') or x == TOPA for x in dt)
        if n in ('array', 'asarray', 'stack', 'vstack', 'concatenate', 'hstack', 'copy'):
            src = a[0] if a else TOP
            if n in ('concatenate', 'hstack') and len(a) >= 1:
                parts = self.items_of(src, st, node)
                if parts[0] == 'items':
                    its = [self.items_of(p, st, node) for p in parts[1]]
                    if all(i[0] == 'items' for i in its): return self.new(st, node, 'nd', items=[x for i in its for x in i[1]])
                    return self.new(st, node, 'nd', elem=self.joinall((self.joinall(i[1]) if i[0] == 'items' else i[1]) for i in its))
                return self.new(st, node, 'nd', elem=self.elem_of(parts[1], st, node))
            return self.to_nd(src, st, node, obj)
        if n in ('identity', 'eye', 'zeros', 'ones', 'full', 'arange'):
            if not obj: self.event('float', f'np.{n} without dtype=object builds floating-point or fixed-width numbers', node)
            c = self.const_index(a[0]) if a else None
            kind = 'int' if obj else 'np'
            if n in ('identity', 'eye') and c is not None and c <= 12:
                rows = [self.new(st, node, 'nd', items=[k(1 if i == j else 0) for j in range(c)], sub=('r', i)) for i in range(c)]
                return self.new(st, node, 'nd', items=rows)
            return self.new(st, node, 'nd', elem=self.new(st, node, 'nd', elem=num(kind, 0, 1), sub='r') if n in ('identity', 'eye') else num(kind))
        if n in ('array_equal', 'allclose', 'any', 'all', 'isclose'):
            if n in ('allclose', 'isclose'): self.event('float', f'np.{n} compares approximately', node)
            if n == 'array_equal' and len(a) == 2:
                r = self.same_arrays(a[0], a[1], st)
                if r is not None: return k(r)
            return BOOL
        if n in ('dot', 'sum', 'prod', 'abs', 'absolute', 'cumprod', 'maximum', 'minimum', 'max', 'min', 'add', 'subtract', 'multiply', 'matmul', 'inner', 'outer', 'diff', 'negative', 'square', 'mod', 'floor_divide', 'floor', 'round') and a and not obj:
            # plain sequences of integers become arrays of machine numbers
            arrays = [any(isinstance(x, Ref) and st.heap[x.oid].kind == 'nd' or isinstance(x, Top) for x in v) for v in a if not isinstance(v, tuple)]
            if not any(arrays) and any(isinstance(x, Ref) and st.heap[x.oid].kind in ('list', 'tuple') for v in a if not isinstance(v, tuple) for x in v):
                a = [self.to_nd(v, st, node, obj) if not isinstance(v, tuple) and any(isinstance(x, Ref) and st.heap[x.oid].kind in ('list', 'tuple') for x in v) else v for v in a]
        if n == 'dot' and len(a) == 2:
            return self.call(self.getattr_(a[0], 'dot', st, node), [a[1]], {}, st, node)
        if n == 'cumsum' and len(a) == 1 and not kw:
            its = self.items_of(a[0], st, node)
            if its[0] == 'items' and all(len(i) == 1 and isinstance(self.sole(i), K) and self.sole(i).ty == 'int' for i in its[1]):
                from itertools import accumulate
                return self.new(st, node, 'nd', items=[k(v) for v in accumulate(self.sole(i).v for i in its[1])])
        if n == 'cumsum': return self.new(st, node, 'nd', elem=num('np'))
        if n == 'ndarray': return TOP
        if n.startswith('linalg'): self.event('float', f'np.{n} computes in floating point', node); return TOP
        return TOP
    def same_arrays(self, a, b, st):
        """Whether two arrays of known entries are equal."""
        if len(a) != 1 or len(b) != 1: return None
        x, y = next(iter(a)), next(iter(b))
        if isinstance(x, Ref) != isinstance(y, Ref): return None
        if not isinstance(x, Ref): return self.eq_atoms(x, y, st)
        p, q = st.heap[x.oid], st.heap[y.oid]
        if p.kind not in ('nd', 'list', 'tuple') or q.kind not in ('nd', 'list', 'tuple') or p.items is None or q.items is None: return None
        if len(p.items) != len(q.items): return False
        rs = [self.same_arrays(u, v, st) for u, v in zip(p.items, q.items)]
        return False if False in rs else None if None in rs else True
    def to_nd(self, v, st, node, obj, depth=0):
        it = self.items_of(v, st, node)
        def conv(e, sub):
            out = BOT
            for x in e:
                if isinstance(x, Ref) and st.heap[x.oid].kind in ('list', 'tuple', 'iter'):
                    i2 = self.items_of(one(x), st, node)
                    if i2[0] == 'items': out = self.join(out, self.new(st, node, 'nd', items=[conv(z, sub + (j,)) for j, z in enumerate(i2[1])], sub=sub + ('n',)))
                    else: out = self.join(out, self.new(st, node, 'nd', elem=conv(i2[1], sub + ('e',)), sub=sub + ('n',)))
                elif self.is_num(x) and not obj:
                    if (isinstance(x, Num) and x.kind in ('int',) or isinstance(x, K) and x.ty in ('int', 'bool') or isinstance(x, Bool)):
                        self.event('float', 'np.array without dtype=object turns integers into fixed-width numbers', node)
                        out = self.join(out, num('np'))
                    else: out = self.join(out, one(x))
                else: out = self.join(out, one(x))
            return out
        if it[0] == 'items': return self.new(st, node, 'nd', items=[conv(x, ('i', j)) for j, x in enumerate(it[1])])
        return self.new(st, node, 'nd', elem=conv(it[1], ('e',)), ne=it[2])
    def map_nd(self, x, f, st, node):
        r = st.heap[x.oid]
        def m(v, sub):
            out = BOT
            for y in v:
                if isinstance(y, Ref) and st.heap[y.oid].kind == 'nd':
                    q = st.heap[y.oid]
                    out = self.join(out, self.new(st, node, 'nd', items=[m(z, sub + (j,)) for j, z in enumerate(q.items)] if q.items is not None else None, elem=m(q.elem, sub + ('e',)) if q.items is None else BOT, sub=sub))
                else: out = self.join(out, f(one(y)))
            return out
        return self.new(st, node, 'nd', items=[m(z, ('m', j)) for j, z in enumerate(r.items)] if r.items is not None else None, elem=m(r.elem, ('m', 'e')) if r.items is None else BOT, sub='map')
    def nd_shape(self, x, st, node):
        r = st.heap[x.oid]
        first = r.items[0] if r.items else r.elem
        nested = any(isinstance(y, Ref) for y in first)
        n0 = k(len(r.items)) if r.items is not None else NAT
        return self.new(st, node, 'tuple', items=[n0, NAT] if nested else [n0]) if first != TOP else self.new(st, node, 'tuple', elem=NAT)
    def nd_binop(self, op, x, y, st, node):
        def isnd(z): return isinstance(z, Ref) and st.heap[z.oid].kind in ('nd', 'list', 'tuple')
        def go(a, b, sub):
            out = BOT
            for p in a:
                for q in b:
                    if isnd(p) and isnd(q):
                        rp, rq = st.heap[p.oid], st.heap[q.oid]
                        if rp.items is not None and rq.items is not None and len(rp.items) == len(rq.items):
                            v = self.new(st, node, 'nd', items=[go(i, j, sub + (n,)) for n, (i, j) in enumerate(zip(rp.items, rq.items))], sub=sub)
                        else: v = self.new(st, node, 'nd', elem=go(self.summary(rp)[1], self.summary(rq)[1], sub + ('e',)), sub=sub)
                    elif isnd(p) or isnd(q):
                        c = p if isnd(p) else q
                        rc = st.heap[c.oid]
                        f = (lambda z, s: go(z, one(q), s)) if isnd(p) else (lambda z, s: go(one(p), z, s))
                        v = self.new(st, node, 'nd', items=[f(i, sub + (n,)) for n, i in enumerate(rc.items)], sub=sub) if rc.items is not None else self.new(st, node, 'nd', elem=f(rc.elem, sub + ('e',)), sub=sub)
                    elif isinstance(p, Top) or isinstance(q, Top): v = TOP
                    else:
                        self.check_float_mix(one(p), one(q), 'arithmetic', st, node)
                        v = self.binop1(op, p, q, st, node)
                    out = self.join(out, v)
            return out
        return go(one(x), one(y), ('nb',))
    def m_nd_dot(self, x, r, a, kw, st, node):
        if not a: return TOP
        rows = list(r.items) if r.items is not None else None
        def strip(v): return frozenset(z._replace(tag=None) if isinstance(z, Num) else z for z in v)
        def vec(v):
            y = self.sole(v)
            if isinstance(y, Ref): return self.items_of(v, st, node)
            if isinstance(y, Obj): return self.items_of(v, st, node)
            return ('elem', TOP, False)
        def scal(u, w):
            if u[0] == 'items' and w[0] == 'items' and len(u[1]) == len(w[1]):
                t = k(0)
                for p, q in zip(u[1], w[1]): t = self.binop(ast.Add(), t, self.binop(ast.Mult(), strip(p), strip(q), st, node), st, node)
                return t
            e1 = self.joinall(u[1]) if u[0] == 'items' else u[1]
            e2 = self.joinall(w[1]) if w[0] == 'items' else w[1]
            p = self.binop(ast.Mult(), strip(e1), strip(e2), st, node)
            if not all(self.is_num(z) for z in p): return TOP
            return frozenset(z._replace(lo=None if z.lo is None or z.lo < 0 else 0, hi=None, t=None) if isinstance(z, Num) else z for z in self.join(p, INT if all(self.kind_of(z) in ('int', 'bool') for z in p) else p)) if p else TOP
        b = vec(a[0])
        b0 = (self.joinall(b[1]) if b[0] == 'items' else b[1])
        bnest = any(isinstance(z, Ref) for z in b0)
        first = r.items[0] if r.items else r.elem
        nested = any(isinstance(z, Ref) for z in first)
        if first == TOP or not first: return self.new(st, node, 'nd', elem=TOP)
        if not nested: return scal(('items', list(r.items)) if r.items is not None else ('elem', r.elem, False), b) if not bnest else TOP
        def row(v, sub):
            u = vec(v)
            if not bnest: return scal(u, b)
            brows = [vec(z) for z in b[1]] if b[0] == 'items' else [vec(b[1])]
            if b[0] == 'items' and all(z[0] == 'items' for z in brows) and u[0] == 'items':
                cols = [('items', [z[1][j] for z in brows]) for j in range(min(len(z[1]) for z in brows))] if brows else []
                return self.new(st, node, 'nd', items=[scal(u, c) for c in cols], sub=sub)
            e = self.joinall((self.joinall(z[1]) if z[0] == 'items' else z[1]) for z in brows)
            return self.new(st, node, 'nd', elem=scal(u, ('elem', e, False)), sub=sub)
        if rows is not None: return self.new(st, node, 'nd', items=[row(v, ('d', i)) for i, v in enumerate(rows)], sub='dot')
        return self.new(st, node, 'nd', elem=row(r.elem, ('d', 'e')), sub='dot')
    def m_nd_tolist(self, x, r, a, kw, st, node):
        def cv(v, sub):
            out = BOT
            for y in v:
                if isinstance(y, Ref) and st.heap[y.oid].kind == 'nd':
                    q = st.heap[y.oid]
                    out = self.join(out, self.new(st, node, 'list', items=[cv(z, sub + (j,)) for j, z in enumerate(q.items)] if q.items is not None else None, elem=cv(q.elem, sub + ('e',)) if q.items is None else BOT, sub=sub))
                elif isinstance(y, Num) and y.kind == 'np': out = self.join(out, one(y))
                else: out = self.join(out, one(y))
            return out
        return cv(one(x), ('tl',))
    def m_nd_transpose(self, x, r, a, kw, st, node):
        if r.items is not None:
            rows = [self.items_of(v, st, node) for v in r.items]
            if rows and all(z[0] == 'items' for z in rows) and len(set(len(z[1]) for z in rows)) == 1:
                return self.new(st, node, 'nd', items=[self.new(st, node, 'nd', items=[z[1][j] for z in rows], sub=('t', j)) for j in range(len(rows[0][1]))])
        return self.alloc(st, node, r.copy(items=None, elem=self.summary(r)[1]))
    def m_nd_flatten(self, x, r, a, kw, st, node):
        def leaves(v):
            out = BOT
            for y in v: out = self.join(out, leaves(self.summary(st.heap[y.oid])[1]) if isinstance(y, Ref) else one(y))
            return out
        return self.new(st, node, 'nd', elem=leaves(one(x)))
    m_nd_ravel = m_nd_flatten
    def m_nd_any(self, x, r, a, kw, st, node):
        if r.items is not None:
            ts = [self.truth(v, st) for v in r.items]
            if True in ts: return TRUE
            if all(t is False for t in ts) and not any(isinstance(z, Ref) for v in r.items for z in v): return FALSE
        return BOOL
    def m_nd_all(self, x, r, a, kw, st, node): return BOOL
    def m_nd_sum(self, x, r, a, kw, st, node): return TOP
    def m_nd_astype(self, x, r, a, kw, st, node):
        if a and any(isinstance(z, Ext) and z.name in ('int', 'float') or isinstance(z, Ext) and z.name.startswith('np.') for z in a[0]): self.event('float', 'an exact matrix is converted to machine numbers', node)
        return self.alloc(st, node, r.copy(org='fresh'))
    def m_iter___next__(self, x, r, a, kw, st, node): return self.x_next([one(x)], {}, st, node, [])
