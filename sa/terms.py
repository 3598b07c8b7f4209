"""Expressions as sums of graded terms: the abstract domain in which the grade
operations of the algebra layer are analysed.

A multivector expression is an arbitrary sum of terms c_k * b_k where b_k is a
basis element of grade k and c_k an unknown commutative coefficient; one term
stands for every grade class, so a sign or selection table is decided for all
multivectors (the operations are linear and their guards depend on the grade
only, which is checked: a guard depending on anything else makes the obligation
undecided)."""
from .vals import *
from .vals import V
from .gamodel import *
from .interp import PyRaise

NG = 12         # grade classes 0..NG


class Terms(GaHooks):
    """base=True: symbols of the base representation are not in the blade tables"""

    def __init__(self, W, skip=(), ng=NG, ortho=None):
        super().__init__(W, skip)
        self.ng = ng
        self.ortho = ortho
        self.blades = [[T('b%d' % k, typ='sympy.Symbol'), T("b%d'" % k, typ='sympy.Symbol')] for k in range(1, ng + 1)]
        self.bases = [[T('B%d' % k, typ='sympy.Symbol'), T("B%d'" % k, typ='sympy.Symbol')] for k in range(1, ng + 1)]
        self.gr = {}
        self.kind = {}
        self.conv = {}
        for k in range(ng):
            for i in range(2):
                b, B = self.blades[k][i], self.bases[k][i]
                self.gr[b.key()] = self.gr[B.key()] = k + 1
                self.kind[b.key()] = 'blade'
                self.kind[B.key()] = 'base'
                self.conv[b.key()] = B
                self.conv[B.key()] = b
        self.coefs = {}

    def coef(self, name):
        c = T(name, typ=EXPR)
        self.coefs[c.key()] = c
        return c

    def expr(self, spec, base=False):
        """sum of terms; spec: list of (coefficient name or None for 1, grade, which)"""
        out = None
        for nm, g, i in spec:
            c = self.coef(nm) if nm else Const(1, True)
            if g == 0:
                t = c
            else:
                b = (self.bases if base else self.blades)[g - 1][i]
                t = T('*', c, b, typ=EXPR) if nm else b
            out = t if out is None else T('+', out, t, typ=EXPR)
        return out if out is not None else Const(0, True)

    # ---- structure of an expression
    def parts(self, v):
        """[(coefficient, basis element or None)] or None when unknown"""
        if isinstance(v, Const):
            if not num(v.v):
                return None
            return [(v, None)] if v.v else []
        if not isinstance(v, T):
            return None
        if v.key() in self.kind:
            return [(Const(1, True), v)]
        if v.key() in self.coefs:
            return [(v, None)]
        if v.op in ('+', '-') and len(v.args) == 2:
            a, b = self.parts(v.args[0]), self.parts(v.args[1])
            if a is None or b is None:
                return None
            return a + ([(self.neg(c), x) for c, x in b] if v.op == '-' else b)
        if v.op == 'neg':
            a = self.parts(v.args[0])
            return None if a is None else [(self.neg(c), x) for c, x in a]
        if v.op == '*' and len(v.args) == 2:
            a, b = self.parts(v.args[0]), self.parts(v.args[1])
            if a is None or b is None:
                return None
            out = []
            for c, x in a:
                for d, y in b:
                    if x is not None and y is not None:
                        return None
                    out.append((self.mulc(c, d), x if x is not None else y))
            return out
        if v.op in ('id', 'obj', 'mv') and v.args:
            return self.parts(v.args[0])
        return None

    def neg(self, c):
        if isinstance(c, Const):
            return Const(-c.v, True)
        if c.op == 'neg':
            return c.args[0]
        return T('neg', c, typ=EXPR)

    def mulc(self, c, d):
        if isinstance(c, Const) and isinstance(d, Const):
            return Const(c.v * d.v, True)
        for a, b in ((c, d), (d, c)):
            if isinstance(a, Const):
                return b if a.v == 1 else self.neg(b) if a.v == -1 else T('*', a, b, typ=EXPR)
        if c.op == 'neg':
            return self.neg(self.mulc(c.args[0], d))
        if d.op == 'neg':
            return self.neg(self.mulc(c, d.args[0]))
        return T('*', c, d, typ=EXPR)

    def canon(self, ps):
        """collect terms; None for the scalar part first"""
        d = {}
        for c, x in ps:
            k = x.key() if x is not None else None
            d.setdefault(k, [x, {}])
            e = d[k][1]
            s = 1
            if isinstance(c, Const):
                ck, s, cv = ('1',), c.v, Const(1, True)
            elif c.op == 'neg':
                ck, s, cv = c.args[0].key(), -1, c.args[0]
                if isinstance(cv, T) and cv.op == '*' and isinstance(cv.args[0], Const):
                    s, cv = -cv.args[0].v, cv.args[1]
                    ck = cv.key()
            elif c.op == '*' and isinstance(c.args[0], Const):
                s, cv = c.args[0].v, c.args[1]
                ck = cv.key()
            else:
                ck, cv = c.key(), c
            n = e.get(ck, (0, cv))[0] + s
            e[ck] = (n, cv)
        out = []
        for k, (x, e) in d.items():
            for n, cv in e.values():
                if n:
                    cv1 = isinstance(cv, Const)
                    out.append((Const(n, True) if cv1 else cv if n == 1 else self.neg(cv) if n == -1 else T('*', Const(n, True), cv, typ=EXPR), x))
        return out

    def term(self, c, x):
        if x is None:
            return c
        if isinstance(c, Const) and c.v == 1:
            return x
        return T('*', c, x, typ=EXPR)

    def terms(self, v):
        p = self.parts(v)
        return None if p is None else [self.term(c, x) for c, x in self.canon(p)]

    def table(self, v):
        """{basis key or None: {coefficient key: number}} of a value, None when unknown"""
        p = self.parts(v)
        if p is None:
            return None
        out = {}
        for c, x in self.canon(p):
            n = 1
            if isinstance(c, Const):
                n, c = c.v, Const(1, True)
            elif c.op == 'neg':
                n, c = -1, c.args[0]
            elif c.op == '*' and isinstance(c.args[0], Const):
                n, c = c.args[0].v, c.args[1]
            out[(repr(x) if x is not None else '1', repr(c))] = n
        return out

    # ---- model
    def getattr(self, m, o, name, node):
        if is_ga(self.W, o) and name not in o.fields and name not in self.skip:
            if name in ('blades_to_grades_dict', 'bases_to_grades_dict'):
                k = 'blade' if name[1] == 'l' else 'base'
                src = self.blades if k == 'blade' else self.bases
                d = Dct([[Const(1, True), Const(0)]] + [[x, Const(i + 1)] for i, g in enumerate(src) for x in g])
                o.fields[name] = d
                return d
            if name == 'n':
                return Const(self.ng)
            if name == 'is_ortho' and self.ortho is not None:
                return Const(self.ortho)
            if name in ('blades', 'bases'):
                src = self.blades if name == 'blades' else self.bases
                rows = [Seq('tuple', [Const(1, True)])] + [Seq('tuple', g) for g in src]
                r = Obj(o.name + '.' + name, 'GradedTuple', fields={'flat': Seq('tuple', [x for s in rows for x in s.items]), 'rows': Seq('tuple', rows)})
                o.fields[name] = r
                return r
        if isinstance(o, (T, Const)) and not is_mv(self.W, o):
            t = self.terms(o)
            if t is not None and name in ('args', 'is_commutative', 'is_Add', 'is_Mul', 'is_Symbol', 'func', 'is_zero', 'is_number', 'is_Atom'):
                st = self.shape(o, t)
                if name == 'is_commutative':
                    return Const(all(x is None for _, x in self.parts(o)))
                if name == 'args':
                    if st == 'Add':
                        return Seq('tuple', t)
                    if st == 'Mul':
                        (c, x), = self.canon(self.parts(o))
                        return Seq('tuple', [c, x] if x is not None else [c])
                    return Seq('tuple', [])
                if name == 'is_zero':
                    return Const(st == 'zero')
                if name == 'is_number':
                    return Const(st in ('zero', 'number'))
                if name == 'is_Atom':
                    return Const(st in ('Symbol', 'zero', 'number'))
                if name == 'func':
                    return Ext('sympy.' + st) if st in ('Add', 'Mul', 'Symbol') else None
                return Const(st == name[3:])
        return super().getattr(m, o, name, node)

    def shape(self, o, t):
        if not t:
            return 'zero'
        if len(t) > 1:
            return 'Add'
        x = t[0]
        if isinstance(x, Const):
            return 'number'
        if x.key() in self.kind or x.key() in self.coefs:
            return 'Symbol'
        return 'Mul'

    def instance(self, m, v, cls):
        if isinstance(v, (T, Const)) and not is_mv(self.W, v) and isinstance(cls, Ext):
            if isinstance(v, Const) and not v.sym:
                return None
            t = self.terms(v)
            if t is not None:
                st = self.shape(v, t)
                nm = cls.name.split('.')[-1]
                if nm in ('Add', 'Mul', 'Symbol', 'Pow', 'Function'):
                    return st == nm
                if nm in ('Expr', 'Basic'):
                    return True
                if nm in ('Number', 'Rational', 'Integer') and cls.name.startswith('sympy'):
                    return st in ('zero', 'number')
        return None

    def new_mv(self, m, x, ga, base):
        n = m.fresh('mv')
        o = Obj(n, self.W.Mv, fresh=True, fields={
            'Ga': ga, 'obj': x, 'is_blade_rep': Const(not base), 'i_grade': NONE, 'grades': NONE, 'blade_flg': NONE, 'versor_flg': NONE,
            'char_Mv': FALSE, 'title': NONE})
        return o

    def is_base(self, ps):
        return any(x is not None and self.kind[x.key()] == 'base' for _, x in ps)

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if (isinstance(f, Cls) and f.ci is self.W.Mv and 'Mv.__init__' not in self.skip or q == 'Ga.mv' and isinstance(f, Bound)) and len(args) == 1:
            ga = f.self_ if isinstance(f, Bound) else kw.get('ga')
            if ga is not None and set(kw) <= {'ga'} and isinstance(args[0], (T, Const)):
                ps = self.parts(args[0])
                if ps is not None:
                    return self.new_mv(m, args[0], ga, self.is_base(ps))
        if q in ('Ga.base_to_blade_rep', 'Ga.blade_to_base_rep') and q not in self.skip and args:
            p = self.parts(args[0])
            if p is not None:
                want = 'blade' if q.endswith('base_to_blade_rep') else 'base'
                out = None
                for c, x in self.canon(p):
                    if x is not None and self.kind[x.key()] != want:
                        x = self.conv[x.key()]
                    t = self.term(c, x)
                    out = t if out is None else T('+', out, t, typ=EXPR)
                return out if out is not None else Const(0, True)
        if q in ('linear_expand', 'linear_expand_terms') and q not in self.skip:
            p = self.parts(args[0])
            if p is None:
                return None
            d = {}
            for c, x in self.canon(p):
                k = x.key() if x is not None else None
                if k in d:
                    d[k] = (T('+', d[k][0], c, typ=EXPR), x)
                else:
                    d[k] = (c, x if x is not None else Const(1, True))
            m.note('linear_expand', node, args[0])
            if not d:
                cs, bs = [Const(0, True)], [Const(1, True)]
            else:
                cs, bs = [c for c, _ in d.values()], [x for _, x in d.values()]
            # order of the two lists in the program: taken from linear_expand itself
            if q == 'linear_expand':
                return Seq('tuple', [Seq('list', cs), Seq('list', bs)])
            return Seq('list', [Seq('tuple', [c, b]) for c, b in zip(cs, bs)])
        if q in self.GA_METHODS or q in ('Ga.even_odd', 'Ga.get_grade', 'Mv.characterise_Mv'):
            if q not in ('Ga.base_to_blade_rep', 'Ga.blade_to_base_rep', 'Mv.characterise_Mv'):
                return None           # interpreted
            if q in self.skip:
                return None
        return super().call(m, f, args, kw, node)

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if args and isinstance(args[0], (T, Const)) and not is_mv(self.W, args[0]):
            if sh in ('expand', 'simplify', 'collect', 'factor', 'cancel', 'together', 'trigsimp', 'S', 'sympify', 'expand_mul'):
                p = self.terms(args[0])
                if p is not None:
                    return self.sum(p)
        if sh == '_from_args' and args and isinstance(args[0], Seq) and args[0].concrete():
            return self.fold('*' if 'Mul' in name else '+', args[0].items)
        if sh in ('Mul', 'Add') and name.startswith('sympy') and all(isinstance(a, V) for a in args) and not any(isinstance(a, Each) for a in args):
            return self.fold('*' if sh == 'Mul' else '+', args)
        if sh == 'make_args' and args:
            t = self.terms(args[0])
            if t is not None and 'Add' in name:
                return Seq('tuple', t)
        return super().ext(m, name, args, kw, node)

    def sum(self, ts):
        return self.fold('+', ts)

    def fold(self, op, items):
        out = None
        for x in items:
            out = x if out is None else T(op, out, x, typ=EXPR)
        return out if out is not None else Const(1 if op == '*' else 0, True)

    def extmethod(self, m, o, name, args, kwargs, node):
        if isinstance(o, (T, Const)) and not is_mv(self.W, o):
            ps = self.parts(o)
            if ps is not None:
                ps = self.canon(ps)
                if name == 'args_cnc' and len(ps) <= 1:
                    c, x = ps[0] if ps else (Const(0, True), None)
                    return Seq('list', [Seq('list', [] if isinstance(c, Const) and c.v == 1 and x is not None else [c]), Seq('list', [x] if x is not None else [])])
                if name in ('expand', 'simplify'):
                    return self.sum([self.term(c, x) for c, x in ps])
                if name in ('as_ordered_terms',):
                    return Seq('list', [self.term(c, x) for c, x in ps])
        return None

    def compare(self, m, op, l, r, node):
        if op in ('==', '!=') and not is_mv(self.W, l) and not is_mv(self.W, r) and isinstance(l, (T, Const)) and isinstance(r, (T, Const)):
            a, b = self.table(l), self.table(r)
            if a is not None and b is not None:
                return Const((a == b) == (op == '=='))
        return super().compare(m, op, l, r, node)

    def getitem(self, m, v, idx, node):
        if isinstance(v, Obj) and v.cls == 'GradedTuple':
            rows = v.fields['rows']
            if isinstance(idx, Const) and isinstance(idx.v, int):
                if idx.v >= len(rows.items):
                    raise PyRaise(Const('index'), 'IndexError', node, m.where(node))
                return rows.items[idx.v]
        return None

    def iterate(self, m, v, node):
        if isinstance(v, Obj) and v.cls == 'GradedTuple':
            return list(v.fields['rows'].items)
        return None
