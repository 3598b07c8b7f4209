"""The free-algebra domain: an expression is a polynomial in non-commuting basis
symbols with commutative polynomial coefficients (uninterpreted metric entries and
coefficient names).  Arithmetic on such values is exact value numbering: the code is
interpreted with *no* concrete metric or coefficient, and basis indices enter only
through their order type (the code compares indices, nothing else)."""
from fractions import Fraction

from .vals import *
from .vals import V
from .gamodel import *
from .interp import PyRaise
from .ncpoly import cadd, cmul, cconst, cinv, cfreeze

NCT = 'sympy.Expr'


class Poly:
    """immutable polynomial with cached hash"""
    __slots__ = ('d', 'h', 'e', 's')

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset((w, frozenset(c.items())) for w, c in d.items()))
        self.e = self.s = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.d == o.d

    def __repr__(self):
        return ' + '.join('(%s)%s' % (' + '.join('%s%s' % (q, ''.join('*' + '.'.join(map(str, a)) + ('^%d' % n if n != 1 else '') for a, n in m)) for m, q in c.items()),
                                      '.'.join(x[0] + ''.join(map(str, x[1:])) for x in w)) for w, c in self.d.items())


def minus(c):
    # the number of a coefficient with one term
    return list(c.values())[0] if len(c) == 1 else None


class UConst(Const):
    """a product of numbers that was put together without evaluating it: it does not compare equal to its value"""
    __slots__ = ()
    uneval = True


class UT(T):
    __slots__ = ()
    uneval = True


class Free(GaHooks):
    """values T('nc', frozen polynomial)"""

    def __init__(self, W, n, ortho, skip=(), g=None):
        super().__init__(W, skip)
        self.n, self.ortho = n, ortho
        self.gfun = g or self.metric
        self._memo = {}

    # ---- construction
    def mk(self, d):
        d = {w: c for w, c in d.items() if c}
        if not d:
            return Const(0, True)
        if list(d) == [()] and list(d[()]) == [()]:
            x = d[()][()]
            return Const(int(x) if x.denominator == 1 else x, True)
        return T('nc', Poly(d), typ=EXPR)

    def scal(self, name):
        return self.mk({(): {((('a', name), 1),): Fraction(1)}})

    def metric(self, i, j):
        if self.ortho and i != j:
            return {}
        return {((('g', min(i, j), max(i, j)), 1),): Fraction(1)}

    def blade(self, idx):
        if not idx:
            return Const(1, True)
        # in the non-orthogonal case e_i is one symbol for base and blade representation
        k = 'e' if len(idx) == 1 else 'b'
        return self.mk({((k,) + tuple(idx),): cconst(1)})

    def base(self, idx):
        if not idx:
            return Const(1, True)
        k = 'e' if len(idx) == 1 else 'B'
        return self.mk({((k,) + tuple(idx),): cconst(1)})

    def val(self, v):
        """{word: coefficient} or None"""
        if isinstance(v, Const):
            if not num(v.v):
                return None
            return {(): cconst(v.v)} if v.v else {}
        if isinstance(v, T):
            if v.op == 'nc':
                return v.args[0].d
            if v.op in ('id', 'obj', 'mv', 'tobase', 'toblade') and v.args and isinstance(v.args[0], V) and self.W is not None:
                return self.val(v.args[0])
        return None

    def expanded(self, v):
        """[(monomial coefficient value dict, word)] of the fully expanded sum"""
        d = self.val(v)
        if d is None:
            return None
        P = v.args[0] if isinstance(v, T) and v.op == 'nc' else None
        if P is not None and P.e is not None:
            return P.e
        out = []
        for w, c in sorted(d.items(), key=repr) if len(d) > 1 else d.items():
            for m, q in sorted(c.items(), key=repr) if len(c) > 1 else c.items():
                out.append(({m: q}, w))
        if P is not None:
            P.e = out
        return out

    def mul(self, a, b):
        r = {}
        for w1, c1 in a.items():
            for w2, c2 in b.items():
                w = w1 + w2
                r[w] = cadd(r.get(w, {}), cmul(c1, c2))
        return {w: c for w, c in r.items() if c}

    def addv(self, a, b, s=1):
        r = dict(a)
        for w, c in b.items():
            r[w] = cadd(r.get(w, {}), c, s)
        return {w: c for w, c in r.items() if c}

    # ---- arithmetic
    def binop(self, m, op, l, r, node):
        if not (isinstance(l, (T, Const)) and isinstance(r, (T, Const))):
            return None
        if op in ('*', '+') and (getattr(l, 'uneval', False) or getattr(r, 'uneval', False)):
            # a factor one or a summand zero is dropped, what is left is not evaluated again
            for x, y in ((l, r), (r, l)):
                if isinstance(y, Const) and num(y.v) and y.v == (op == '*'):
                    return x
        if not (isinstance(l, T) and l.op == 'nc' or isinstance(r, T) and r.op == 'nc'):
            return None
        a, b = self.val(l), self.val(r)
        if a is None or b is None:
            return None
        if op == '+':
            return self.mk(self.addv(a, b))
        if op == '-':
            return self.mk(self.addv(a, b, -1))
        if op == '*':
            return self.mk(self.mul(a, b))
        if op == '/' and list(b) in ([()],):
            i = cinv(b[()])
            return self.mk({w: cmul(c, i) for w, c in a.items()})
        if op == '**' and isinstance(r, Const) and isinstance(r.v, int) and r.v >= 0:
            x = {(): cconst(1)}
            for _ in range(r.v):
                x = self.mul(x, a)
            return self.mk(x)
        if op == '**' and isinstance(r, Const) and isinstance(r.v, int) and list(a) == [()]:
            x = {(): cconst(1)}
            i = {(): cinv(a[()])}
            for _ in range(-r.v):
                x = self.mul(x, i)
            return self.mk(x)
        return None

    def unop(self, m, op, v, node):
        if isinstance(v, T) and v.op == 'nc' and op == 'neg':
            return self.mk({w: {k: -q for k, q in c.items()} for w, c in self.val(v).items()})
        return None

    def compare(self, m, op, l, r, node):
        if op in ('==', '!=') and isinstance(l, (T, Const)) and isinstance(r, (T, Const)):
            if getattr(l, 'uneval', False) != getattr(r, 'uneval', False) and self.val(l) is not None and self.val(r) is not None:
                return Const(op == '!=')
            if isinstance(l, T) and l.op == 'nc' or isinstance(r, T) and r.op == 'nc':
                a, b = self.val(l), self.val(r)
                if a is not None and b is not None:
                    return Const((a == b) == (op == '=='))
                if isinstance(l, Const) and not num(l.v) or isinstance(r, Const) and not num(r.v):
                    return Const(op == '!=')
        return super().compare(m, op, l, r, node)

    def distinct(self, m, l, r):
        if isinstance(l, T) and l.op == 'nc':
            if isinstance(r, T) and r.op == 'nc' or isinstance(r, Const):
                return True
        elif isinstance(l, Const) and isinstance(r, T) and r.op == 'nc':
            return True
        return None

    # ---- structure
    def shape(self, v):
        e = self.expanded(v)
        if not e:
            return 'zero'
        if len(e) > 1:
            return 'Add'
        c, w = e[0]
        (mono, q), = c.items()
        nf = len(w) + sum(abs(x[1]) for x in mono) + (0 if q == 1 else 1)
        if nf == 0 or (nf == 1 and not w and not mono):
            return 'number'
        if nf == 1:
            return 'Symbol'
        return 'Mul'

    def getattr(self, m, o, name, node):
        W = self.W
        if is_ga(W, o) and name not in o.fields and name not in self.skip:
            if name in ('indexes_to_blades_dict', 'indexes_to_bases_dict') and not (name.endswith('bases_dict') and self.ortho):
                r = Obj(o.name + '.' + name, 'BiMap', fields={})
                r.fields['inverse'] = Obj(o.name + '.' + name + '.inverse', 'BiMapInv', fields={'inverse': r})
                o.fields[name] = r
                return r
            if name in ('blades_to_indexes_dict', 'bases_to_indexes_dict'):
                nm = 'indexes_to_' + name[:6] + '_dict'
                return m.getattr(o, nm, node).fields['inverse']
            if name in ('blades_to_grades_dict', 'bases_to_grades_dict'):
                d = Dct([[ (self.blade if name[1] == 'l' else self.base)(i), Const(len(i))] for i in self.subsets()])
                o.fields[name] = d
                return d
            if name == 'n':
                return Const(self.n)
            if name == 'n_range':
                return Seq('list', [Const(i) for i in range(self.n)])
            if name == 'is_ortho':
                return Const(self.ortho)
            if name == 'basis':
                o.fields[name] = Seq('list', [self.blade((i,)) for i in range(self.n)])
                return o.fields[name]
            if name == 'g' :
                o.fields[name] = Obj(o.name + '.g', 'MetricTensor')
                return o.fields[name]
            if name == 'debug':
                return FALSE
            if name in ('blades', 'bases', 'indexes'):
                if name == 'bases' and self.ortho:
                    return None
                f = {'blades': self.blade, 'bases': self.base, 'indexes': lambda i: Seq('tuple', [Const(x) for x in i])}[name]
                rows = [Seq('tuple', [f(i) for i in self.subsets() if len(i) == k]) for k in range(self.n + 1)]
                r = Obj(o.name + '.' + name, 'GradedTuple', fields={'flat': Seq('tuple', [x for s in rows for x in s.items]), 'rows': Seq('tuple', rows)})
                o.fields[name] = r
                return r
        if isinstance(o, (T, Const)):
            if isinstance(o, Const) and not num(o.v):
                return None
            if self.val(o) is not None:
                if name == 'is_commutative':
                    return Const(all(not w for w in self.val(o)))
                if name == 'args':
                    e = self.expanded(o)
                    s = self.shape(o)
                    if s == 'Add':
                        return Seq('tuple', [self.mk({w: c}) for c, w in e])
                    if s == 'Mul':
                        c, w = e[0]
                        return Seq('tuple', ([] if c == cconst(1) else [self.mk({(): c})]) + [self.mk({(x,): cconst(1)}) for x in w])
                    return Seq('tuple', [])
                if name in ('is_Add', 'is_Mul', 'is_Symbol'):
                    return Const(self.shape(o) == name[3:])
                if name == 'is_zero':
                    return Const(self.shape(o) == 'zero')
                if name == 'is_number':
                    return Const(self.shape(o) in ('zero', 'number'))
        if is_ga(W, o):
            return Hooks_getattr_products_off(self, m, o, name, node)
        return None

    def subsets(self):
        from itertools import combinations
        return [c for k in range(self.n + 1) for c in combinations(range(self.n), k)]

    def instance(self, m, v, cls):
        if isinstance(cls, Ext) and (isinstance(v, T) and v.op == 'nc'):
            nm = cls.name.split('.')[-1]
            s = self.shape(v)
            if nm in ('Add', 'Mul', 'Symbol', 'Pow', 'Function'):
                return s == nm
            if nm in ('Expr', 'Basic'):
                return True
            if nm in ('Number', 'Rational', 'Integer', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'Matrix', 'MatrixBase'):
                return False
        return None

    def idx_of(self, v, kinds):
        d = self.val(v) if isinstance(v, (T, Const)) else None
        if d is None:
            return None
        if d == {(): cconst(1)}:
            return ()
        if len(d) == 1:
            (w, c), = d.items()
            if c == cconst(1) and len(w) == 1 and w[0][0] in kinds:
                return tuple(w[0][1:])
        return False

    def getitem(self, m, v, idx, node):
        if isinstance(v, Obj):
            if v.cls == 'GradedTuple':
                if isinstance(idx, Const) and isinstance(idx.v, int):
                    it = v.fields['rows'].items
                    if not -len(it) <= idx.v < len(it):
                        raise PyRaise(Const('index'), 'IndexError', node, m.where(node))
                    return it[idx.v]
                return None
            if v.cls == 'MetricTensor':
                if isinstance(idx, Seq) and len(idx.items) == 2 and all(isinstance(x, Const) for x in idx.items):
                    m.note('metric', node, idx.items[0].v, idx.items[1].v)
                    return self.mk({(): self.gfun(idx.items[0].v, idx.items[1].v)})
                return None
            if v.cls == 'BiMap':
                if isinstance(idx, Seq) and idx.kind == 'tuple' and idx.concrete() and all(isinstance(x, Const) for x in idx.items):
                    t = tuple(x.v for x in idx.items)
                    if list(t) == sorted(set(t)) and all(0 <= x < self.n for x in t):
                        return (self.blade if 'blades' in v.name else self.base)(t)
                    raise PyRaise(Const('key %r' % (t,)), 'KeyError', node, m.where(node))
                if isinstance(idx, Seq) and idx.kind == 'list':
                    raise PyRaise(Const('unhashable list'), 'TypeError', node, m.where(node))
                return None
            if v.cls == 'BiMapInv':
                t = self.idx_of(idx, ('e', 'b') if 'blades' in v.name else ('e', 'B'))
                if t is None:
                    return None
                if t is False:
                    raise PyRaise(Const('key'), 'KeyError', node, m.where(node))
                return Seq('tuple', [Const(x) for x in t])
            rc = m.repo_cls(v)
            if rc is not None and rc.lookup('__getitem__') is None and rc.lookup('__missing__') is not None:
                return m.call_method(v, '__missing__', [idx], {}, node)
        return None

    def iterate(self, m, v, node):
        if isinstance(v, Obj) and v.cls == 'GradedTuple':
            return list(v.fields['rows'].items)
        if isinstance(v, Obj) and v.cls == 'BiMap':
            return [Seq('tuple', [Const(x) for x in i]) for i in self.subsets()]
        return None

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q in ('linear_expand', 'linear_expand_terms') and q not in self.skip and args:
            e = self.val(args[0])
            if e is None:
                return None
            cs, bs = [], []
            for w, c in sorted(e.items(), key=repr):
                if len(w) > 1:
                    return None
                cs.append(self.mk({(): c}))
                bs.append(self.mk({w: cconst(1)}))
            if not cs:
                cs, bs = [Const(0, True)], [Const(1, True)]
            if q == 'linear_expand':
                return Seq('tuple', [Seq('list', cs), Seq('list', bs)])
            return Seq('list', [Seq('tuple', [c, b]) for c, b in zip(cs, bs)])
        if q in ('Simp.apply', 'collect') and (q == 'collect' or q not in self.skip) and args and isinstance(args[0], (T, Const)) and self.val(args[0]) is not None:
            return args[0]
        return None

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if args and isinstance(args[0], (T, Const)) and self.val(args[0]) is not None and not name.startswith('builtins'):
            if sh in ('expand', 'simplify', 'collect', 'factor', 'cancel', 'together', 'trigsimp', 'S', 'sympify', 'expand_mul'):
                d = self.val(args[0])
                return self.mk(d)
            if sh == 'make_args' and 'Mul' in name:
                d = self.val(args[0])
                if getattr(args[0], 'uneval', False):
                    return Seq('tuple', [Const(-1, True), self.mk({w: cmul(cconst(-1), c) for w, c in d.items()})])
                return Seq('tuple', [args[0]]) if list(d) in ([], [()]) else None
            if sh == 'make_args' and 'Add' in name:
                return Seq('tuple', [self.mk({w: c}) for c, w in self.expanded(args[0])])
        if sh in ('_from_args', 'Mul', 'Add', 'prod') and name.startswith('sympy'):
            items = args[0].items if sh in ('_from_args', 'prod') and args and isinstance(args[0], Seq) else args
            if any(isinstance(x, Each) for x in items):
                return None
            op = '+' if 'Add' in name else '*'
            out = Const(0 if op == '+' else 1, True)
            for x in items:
                out = m.binop(op, out, x, node)
            if sh == '_from_args' and op == '*' and sum(self.number_factor(x) for x in items) > 1 and isinstance(out, (T, Const)):
                # the product is not evaluated: it has several numbers among its factors and does not compare equal to its value
                out = UConst(out.v, out.sym) if isinstance(out, Const) else UT(out.op, *out.args, typ=out.typ)
            return out
        return None

    def number_factor(self, x):
        d = self.val(x) if isinstance(x, (T, Const)) else None
        q = minus(d[()]) if d is not None and list(d) == [()] else None
        return q is not None and q != 1

    def extmethod(self, m, o, name, args, kwargs, node):
        if isinstance(o, Obj) and o.cls in ('BiMap', 'BiMapInv'):
            fwd = o.cls == 'BiMap'
            mk = self.blade if 'blades' in o.name else self.base
            ks = [Seq('tuple', [Const(x) for x in i]) for i in self.subsets()]
            vs = [mk(i) for i in self.subsets()]
            if not fwd:
                ks, vs = vs, ks
            if name == 'items':
                return Seq('gen', [Seq('tuple', [k, v]) for k, v in zip(ks, vs)])
            if name == 'keys':
                return Seq('keys', ks)
            if name == 'values':
                return Seq('gen', vs)
            if name == 'get' and args:
                try:
                    return self.getitem(m, o, args[0], node)
                except PyRaise:
                    return args[1] if len(args) > 1 else NONE
        if isinstance(o, (T, Const)) and (isinstance(o, T) or num(o.v)):
            d = self.val(o)
            if d is None:
                return None
            if name == 'args_cnc':
                e = self.expanded(o)
                if len(e) > 1:
                    return None
                c, w = e[0] if e else ({}, ())
                cl = [] if c == cconst(1) and w else [self.mk({(): c})]
                if len(c) == 1:
                    # every factor of a term by itself
                    (mono, q), = c.items()
                    cl = ([] if q == 1 and (w or mono) else [self.mk({(): cconst(q)})]) + [self.mk({(): {(f,): Fraction(1)}}) for f in mono]
                sp = kwargs.get('split_1', args[2] if len(args) > 2 else TRUE)
                neg = minus(c)
                if not isinstance(sp, Const):
                    return None
                if sp.v and neg is not None and neg not in (1, -1) and neg < 0:
                    cl = [Const(-1, True), self.mk({(): cconst(-q)})] + cl[1:]
                return Seq('list', [Seq('list', cl), Seq('list', [self.mk({(x,): cconst(1)}) for x in w])])
            if name in ('expand', 'simplify', 'trigsimp'):
                return self.mk(d)
            if name in ('subs', 'xreplace'):
                pairs = None
                if len(args) == 2:
                    pairs = [(args[0], args[1])]
                elif len(args) == 1 and isinstance(args[0], Dct) and args[0].open is None:
                    pairs = [(i[0], i[1]) for i in args[0].items]
                elif len(args) == 1 and isinstance(args[0], Seq) and args[0].concrete() and all(isinstance(x, Seq) and len(x.items) == 2 for x in args[0].items):
                    pairs = [tuple(x.items) for x in args[0].items]
                if pairs is None:
                    return None
                mp = {}
                for a, b in pairs:
                    x, y = self.val(a), self.val(b)
                    if x is not None and x == y:
                        continue
                    if x is None or y is None or len(x) != 1:
                        return None
                    (w, c), = x.items()
                    if c != cconst(1) or len(w) != 1:
                        return None
                    mp[w[0]] = y
                # sequential and simultaneous substitution agree when no value mentions a later key
                for k, y in mp.items():
                    for w in y:
                        if any(s in mp and s != k for s in w):
                            return None
                out = {}
                for w, c in d.items():
                    x = {(): c}
                    for s in w:
                        x = self.mul(x, mp.get(s, {(s,): cconst(1)}))
                    out = self.addv(out, x)
                return self.mk(out)
            if name == 'as_ordered_terms':
                return Seq('list', [self.mk({w: c}) for c, w in self.expanded(o)])
        return None


def Hooks_getattr_products_off(self, m, o, name, node):
    if name in ('i', 'i_inv', 'e') and name not in o.fields:
        return GaHooks.getattr(self, m, o, name, node)
    return None
