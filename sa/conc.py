"""A whole algebra over the free-algebra domain.

`Conc` extends `Free`: multivectors, matrices and derivatives over an algebra of small
fixed dimension whose metric entries, coefficients and functions of the coordinates are
uninterpreted (generic) atoms.  The coefficient domain is the field of fractions of the
polynomials in these atoms, where equality is decidable (`ceq`), so the equations of a
property are decided for *all* metrics and coefficients at once; only the dimension is
bounded.  The products of the algebra layer are primitive here (they are decided on their
own by C05): everything above them is interpreted from the source."""
from fractions import Fraction
from itertools import combinations

from .vals import *
from .vals import V
from .gamodel import *
from .interp import PyRaise
from .free import Free, Poly
from .ncpoly import cadd, cmul, cconst, cinv, cfreeze, csqrt

ONE = ()


# ------------------------------------------------------------------ rational functions
def cpow(c, n):
    r = cconst(1)
    for _ in range(n):
        r = cmul(r, c)
    return r


def cneg(c):
    return {m: -q for m, q in c.items()}


def cinvs(c):
    out = {}
    for m in c:
        for at, e in m:
            if at[0] == 'cinv' and e > 0:
                out[at] = max(out.get(at, 0), e)
    return out


def clear(c):
    """numerator of c over the common denominator (c is zero iff the numerator is)"""
    for _ in range(12):
        dens = cinvs(c)
        if not dens:
            break
        r = {}
        for m, q in c.items():
            t = {tuple(x for x in m if x[0][0] != 'cinv' or x[1] < 0): q}
            have = {at: e for at, e in m if at[0] == 'cinv' and e > 0}
            for at, e in dens.items():
                for _k in range(e - have.get(at, 0)):
                    t = cmul(t, dict(at[1]))
            r = cadd(r, t)
        c = r
    # negative powers of plain atoms are units
    neg = {}
    for m in c:
        for at, e in m:
            if e < 0:
                neg[at] = max(neg.get(at, 0), -e)
    for at, e in neg.items():
        c = cmul(c, {((at, e),): Fraction(1)})
    return c


def ceq(a, b):
    if a == b:
        return True
    return not clear(cadd(a, b, -1))


def deq(a, b):
    """equality of {word: coefficient}"""
    return all(ceq(a.get(w, {}), b.get(w, {})) for w in set(a) | set(b))


def dadd(a, b, s=1):
    r = dict(a)
    for w, c in b.items():
        r[w] = cadd(r.get(w, {}), c, s)
    return {w: c for w, c in r.items() if c}


def dscale(a, c):
    return {w: cmul(x, c) for w, x in a.items()}


def det(M):
    n = len(M)
    if n == 0:
        return cconst(1)
    r = {}
    for j in range(n):
        if M[0][j]:
            r = cadd(r, cmul(M[0][j], det([row[:j] + row[j + 1:] for row in M[1:]])), 1 if j % 2 == 0 else -1)
    return r


def adjugate(M):
    n = len(M)
    return [[(lambda d: d if (i + j) % 2 == 0 else cneg(d))(det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j])) for j in range(n)] for i in range(n)]


def minverse(M):
    n = len(M)
    if all(not M[i][j] for i in range(n) for j in range(n) if i != j) and all(M[i][i] for i in range(n)):
        return [[cinv(M[i][i]) if i == j else {} for j in range(n)] for i in range(n)]
    d = cinv(det(M))
    return [[cmul(x, d) for x in r] for r in adjugate(M)]


def mmul(A, B):
    return [[_sum(cmul(A[i][k], B[k][j]) for k in range(len(B))) for j in range(len(B[0]) if B else 0)] for i in range(len(A))]


def _sum(xs):
    r = {}
    for x in xs:
        r = cadd(r, x)
    return r


# ------------------------------------------------------------------ derivations
def datom(at, x, isvar):
    """derivative of a commutative atom with respect to the atom x"""
    if at == x:
        return cconst(1)
    if at[0] == 'f':                      # function of the named coordinates
        return {((('d', at, (x,)), 1),): Fraction(1)} if x in at[2] else {}
    if at[0] == 'd':
        f, xs = at[1], at[2]
        return {((('d', f, tuple(sorted(xs + (x,), key=repr))), 1),): Fraction(1)} if x in f[2] else {}
    if at[0] == 'cinv':
        p = dict(at[1])
        return cneg(cmul(cdiff(p, x), {((at, 2),): Fraction(1)}))
    if at[0] == 'sqrt':
        p = dict(at[1])
        return cmul(cmul(cdiff(p, x), cinv({((at, 1),): Fraction(1)})), cconst(Fraction(1, 2)))
    return {}


def cdiff(c, x, isvar=None):
    r = {}
    for m, q in c.items():
        for k, (at, e) in enumerate(m):
            d = datom(at, x, isvar)
            if d:
                rest = {tuple(y for i, y in enumerate(m) if i != k): q * e}
                if e - 1:
                    rest = cmul(rest, {((at, e - 1),): Fraction(1)})
                r = cadd(r, cmul(rest, d))
    return r


# ------------------------------------------------------------------ exterior / Clifford algebra over a given metric
class Cliff:
    """products of blades (index tuples) for the metric g(i,j) -> coefficient (oracle)"""

    def __init__(self, n, g):
        self.n, self.g = n, g
        self.memo = {}
        self.subsets = [c for k in range(n + 1) for c in combinations(range(n), k)]

    def wedge(self, i, j):
        w = list(i + j)
        if len(set(w)) < len(w):
            return {}
        s = 1
        for a in range(len(w)):
            for b in range(a + 1, len(w)):
                if w[a] > w[b]:
                    s = -s
        return {tuple(sorted(w)): cconst(s)}

    def contract(self, i, w):
        out = {}
        for p, j in enumerate(w):
            c = self.g(i, j)
            if c:
                ww = w[:p] + w[p + 1:]
                out[ww] = cadd(out.get(ww, {}), cmul(cconst(1 if p % 2 == 0 else -1), c))
        return {w: c for w, c in out.items() if c}

    def gp(self, i, j):
        k = (i, j)
        if k in self.memo:
            return self.memo[k]
        if not i:
            r = {j: cconst(1)}
        else:
            r = self.lin(self.gp(i[1:], j), lambda w: dadd(self.wedge((i[0],), w), self.contract(i[0], w)))
            for w, c in self.contract(i[0], i[1:]).items():
                r = dadd(r, dscale(self.gp(w, j), c), -1)
        self.memo[k] = r
        return r

    def lin(self, d, f):
        out = {}
        for w, c in d.items():
            out = dadd(out, dscale(f(w), c))
        return out

    def bil(self, a, b, f):
        out = {}
        for i, x in a.items():
            for j, y in b.items():
                t = f(i, j)
                if t:
                    out = dadd(out, dscale(t, cmul(x, y)))
        return out

    def op(self, name, i, j):
        if name == 'wedge':
            return self.wedge(i, j)
        full = self.gp(i, j)
        if name == 'mul':
            return full
        a, b = len(i), len(j)
        r = {'hestenes_dot': abs(a - b) if a and b else None, 'scalar_product': 0, 'left_contract': b - a if b >= a else None,
             'right_contract': a - b if a >= b else None}[name]
        return {} if r is None else {w: c for w, c in full.items() if len(w) == r}

    def product(self, name, a, b):
        return self.bil(a, b, lambda i, j: self.op(name, i, j))

    def rev(self, a):
        return {w: (c if (len(w) * (len(w) - 1) // 2) % 2 == 0 else cneg(c)) for w, c in a.items()}

    def grade(self, a, r):
        return {w: c for w, c in a.items() if len(w) == r}


MATRIX = ('Matrix', 'ImmutableMatrix', 'MutableDenseMatrix', 'ImmutableDenseMatrix', 'MatrixBase', 'DenseMatrix')


class Conc(Free):
    RSYM = 'r'

    def __init__(self, W, n, g, coords=None, skip=()):
        """g: n x n list of coefficient polynomials; coords: list of coordinate names or None"""
        self.gm = g
        ortho = all(not g[i][j] for i in range(n) for j in range(n) if i != j)
        super().__init__(W, n, ortho, skip, lambda i, j: g[i][j])
        self.cl = Cliff(n, lambda i, j: self.gm[i][j])
        self.coords = coords
        self.nmat = 0

    # ---- values
    def atom(self, at):
        return self.mk({(): {((at, 1),): Fraction(1)}})

    def cval(self, c):
        return self.mk({(): c}) if c else Const(0, True)

    def coef(self, v):
        """commutative coefficient of a scalar value, or None"""
        if isinstance(v, Obj) and v.cls == 'sympy.Expr' and 'v' in v.fields:
            v = v.fields['v']
        d = self.val(v) if isinstance(v, (T, Const)) else None
        if d is None or any(w for w in d):
            return None
        return d.get((), {})

    def lin(self, v):
        """{blade index tuple: coefficient} of a multivector value (Mv object or expression), or None"""
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and self.W.Mv in v.cls.mro():
            b = v.fields.get('is_blade_rep')
            v = v.fields.get('obj')
            if isinstance(b, Const) and not b.v:
                return self.linb(v)
        d = self.val(v) if isinstance(v, (T, Const)) else None
        if d is None:
            return None
        out = {}
        for w, c in d.items():
            if not w:
                out[()] = cadd(out.get((), {}), c)
            elif len(w) == 1 and w[0][0] in ('e', 'b'):
                out[tuple(w[0][1:])] = c
            else:
                return None
        return out

    def base_table(self):
        """blade expansion of the bases and base expansion of the blades (index tuple -> {index tuple: coefficient})"""
        if getattr(self, '_bt', None) is None:
            up = {}
            for w in self.cl.subsets:
                x = {(): cconst(1)}
                for i in w:
                    x = self.cl.product('mul', x, {(i,): cconst(1)})
                up[w] = x
            down = {}
            for w in self.cl.subsets:      # B_w = e_w + lower grades
                x = {w: cconst(1)}
                for u, c in up[w].items():
                    if u != w:
                        x = dadd(x, dscale(down[u], c), -1)
                down[w] = x
            self._bt = (up, down)
        return self._bt

    def linb(self, v):
        """blade coefficients of an expression in base representation, or None"""
        if self.ortho:
            return self.lin(v)
        d = self.val(v) if isinstance(v, (T, Const)) else None
        if d is None:
            return None
        up, out = self.base_table()[0], {}
        for w, c in d.items():
            if len(w) > 1 or (w and w[0][0] not in ('e', 'B', 'b')):
                return None
            if w and w[0][0] == 'b':       # a blade symbol stands for its own expansion in bases
                out = dadd(out, {tuple(w[0][1:]): c})
            else:
                out = dadd(out, dscale(up[tuple(w[0][1:]) if w else ()], c))
        return out

    def unlinb(self, d):
        if self.ortho:
            return self.unlin(d)
        down, out = self.base_table()[1], {}
        for w, c in d.items():
            out = dadd(out, dscale(down[w], c))
        return self.mk({(() if not w else (('e' if len(w) == 1 else 'B',) + tuple(w),)): c for w, c in out.items()})

    def unlin(self, d):
        return self.mk({(() if not w else (('e' if len(w) == 1 else 'b',) + tuple(w),)): c for w, c in d.items()})

    def fn(self, name, coords=None):
        cs = tuple(('a', x) for x in (coords if coords is not None else self.coords or ('x', 'y', 'z')))
        return {((('f', name, cs), 1),): Fraction(1)}

    def sym(self, name):
        return {((('a', name), 1),): Fraction(1)}

    def general(self, name, grades=None, fns=False):
        """generic multivector coefficients {blade: coefficient}"""
        mk = self.fn if fns else self.sym
        return {w: mk(name + ''.join(map(str, w))) for w in self.cl.subsets if grades is None or len(w) in grades}

    # ---- objects
    def ga(self, name='ga', **f):
        """an algebra object: everything not listed here is interpreted from the source"""
        d = {'coords': Seq('list', [self.scal(c) for c in self.coords]) if self.coords is not None else NONE,
             'dslot': Const(-1), '_mlt_a': Seq('list', []), '_mlt_acoefs': Seq('list', []), '_mlt_pdiffs': Seq('list', []),
             '_agrads': Dct([]), '_dbases': Dct([]), 'connect_flg': FALSE, 'norm': FALSE, 'e_norm': NONE, 'gsym': NONE, 'Isq': Const('-'),
             'wedge_print': TRUE, 'dot_mode': Const('|'), 'sing_flg': FALSE, 'debug': FALSE, 'name': Const('GA_' + name), 'par_coords': NONE,
             'n': Const(self.n), 'n_range': Seq('list', [Const(i) for i in range(self.n)]),
             'basis': Seq('list', [self.blade((i,)) for i in range(self.n)]),
             'r_symbols': Seq('list', [self.mk({(('r', i),): cconst(1)}) for i in range(self.n)]),
             'is_ortho': Const(self.ortho), 'g': self.matrix(self.gm)}
        d.update(f)
        o = Obj(name, self.W.Ga, fields=d)
        o.fields.setdefault('e', self.mvobj(o, {tuple(range(self.n)): cconst(1)}))
        if self.n:
            o.fields.setdefault('_XOX', self.mvobj(o, {(i,): self.sym('XOX%d' % i) for i in range(self.n)}))
        return o

    def mvobj(self, ga, d, name=None, igrade=None):
        self.nmat += 1
        v = d if isinstance(d, V) else self.unlin(d)
        if igrade is None:
            gs = {len(w) for w in (self.lin(v) or {})}
            igrade = Const(list(gs)[0]) if len(gs) == 1 else Const(0) if not gs else NONE
        return Obj('%s#%d' % (name or 'mv', self.nmat), self.W.Mv, fields={
            'Ga': ga, 'obj': v, 'is_blade_rep': TRUE, 'i_grade': igrade, 'char_Mv': FALSE, 'grades': NONE, 'blade_flg': NONE,
            'versor_flg': NONE, 'recp': NONE, 'title': NONE, 'coords': ga.fields.get('coords', NONE)})

    def basemv(self, ga, d, name=None):
        """multivector object in base representation"""
        o = self.mvobj(ga, d, name)
        o.fields['obj'] = self.unlinb(d)
        o.fields['is_blade_rep'] = FALSE
        return o

    def matrix(self, M):
        self.nmat += 1
        rows = [Seq('list', [x if isinstance(x, V) else self.cval(x) for x in r]) for r in M]
        return Obj('matrix#%d' % self.nmat, 'sympy.Matrix', fields={'rows_': Seq('list', rows), 'shape_': Seq('tuple', [Const(len(M)), Const(len(M[0]) if M else 0)])})

    def is_matrix(self, v):
        return isinstance(v, Obj) and v.cls == 'sympy.Matrix'

    def mdata(self, v):
        """[[value]] of a matrix"""
        return [list(r.items) for r in v.fields['rows_'].items]

    def mcoef(self, v):
        if not self.is_matrix(v):
            return None
        M = [[self.coef(x) for x in r] for r in self.mdata(v)]
        return None if any(x is None for r in M for x in r) else M

    def mshape(self, v):
        return tuple(x.v for x in v.fields['shape_'].items)

    # ---- the algebra layer
    def product(self, m, op, name, args, kw, node, ga):
        if len(args) == 2 and not kw:
            if name == 'mul' and not self.ortho and not any(isinstance(x, Obj) for x in args):
                a, b = self.linb(args[0]), self.linb(args[1])
                if a is not None and b is not None:
                    m.note('product', node, name, args[0], args[1], ga)
                    return self.unlinb(self.cl.product(name, a, b))
            a, b = self.lin(args[0]), self.lin(args[1])
            if a is not None and b is not None:
                m.note('product', node, name, args[0], args[1], ga)
                return self.unlin(self.cl.product(name, a, b))
        return super().product(m, op, name, args, kw, node, ga)

    def getattr(self, m, o, name, node):
        W = self.W
        if is_ga(W, o):
            if name in PRODUCTS and ('Ga.' + name) not in self.skip and name not in o.fields:
                if W.Ga.lookup(name) is not None:
                    op = PRODUCTS[name]
                    return Prim(name, lambda mm, a, k, n: self.product(mm, op, name, a, k, n, o))
            if name in o.fields:
                return o.fields[name]
            if name in ('g_inv', 'detg', 'e_sq', 'i', 'i_inv', 'e') and W.Ga.lookup(name) is None and name not in o.fields:
                return None
            if name in self.skip:
                return None
        if self.is_matrix(o):
            r = self.matattr(m, o, name, node)
            if r is not None:
                return r
        if isinstance(o, (T, Const)) and name == 'free_symbols' and self.val(o) is not None:
            d = self.val(o)
            ats = set()
            for w, c in d.items():
                for mm_ in c:
                    for at, e in mm_:
                        ats |= self.atoms_in(at)
            return Seq('set', [self.mk({(x,): cconst(1)}) for x in sorted({x for w in d for x in w}, key=repr)] + [self.atom(a) for a in sorted(ats, key=repr)])
        if is_ga(W, o) and name in ('i', 'i_inv', 'e', 'e_sq', 'detg'):
            return None
        return super().getattr(m, o, name, node)

    def atoms_in(self, at):
        if at[0] in ('f',):
            return set(at[2])
        if at[0] == 'd':
            return set(at[1][2])
        if at[0] in ('cinv', 'sqrt'):
            out = set()
            for mono, q in at[1]:
                for a, e in mono:
                    out |= self.atoms_in(a)
            return out
        return {at}

    def matattr(self, m, o, name, node):
        r, c = self.mshape(o)
        if name == 'rows':
            return Const(r)
        if name == 'cols':
            return Const(c)
        if name == 'shape':
            return Seq('tuple', [Const(r), Const(c)])
        if name == 'T':
            return self.transpose(o)
        if name == 'free_symbols':
            out = []
            for row in self.mdata(o):
                for x in row:
                    for y in m.getattr(x, 'free_symbols', node).items:
                        if y not in out:
                            out.append(y)
            return Seq('set', out)
        if name in ('is_square',):
            return Const(r == c)
        return None

    def transpose(self, o):
        D = self.mdata(o)
        r, c = self.mshape(o)
        M = self.matrix([[D[i][j] for i in range(r)] for j in range(c)])
        M.fields['shape_'] = Seq('tuple', [Const(c), Const(r)])
        return M

    # ---- interpreter hooks
    def instance(self, m, v, cls):
        if isinstance(cls, Ext):
            nm = cls.name.split('.')[-1]
            if self.is_matrix(v):
                if nm in MATRIX:
                    if nm in ('ImmutableMatrix', 'ImmutableDenseMatrix'):
                        return v.tag == 'immutable'
                    return v.tag != 'immutable' or nm in ('MatrixBase', 'DenseMatrix')
                return False if nm in ('Expr', 'Symbol', 'Add', 'Mul', 'Number', 'int', 'str', 'list', 'tuple', 'dict', 'Basic', 'float', 'Function') else None
            if nm in MATRIX:
                return False if not isinstance(v, T) or v.op == 'nc' else None
        return super().instance(m, v, cls)

    def tomat(self, m, args, node):
        """Matrix(...) arguments to [[value]]"""
        it = lambda v: v.items if isinstance(v, Seq) and v.concrete() else None
        if len(args) == 1 and self.is_matrix(args[0]):
            return self.mdata(args[0]), self.mshape(args[0])
        if len(args) == 1 and it(args[0]) is not None:
            rows = it(args[0])
            if all(it(r) is not None for r in rows):
                M = [list(it(r)) for r in rows]
                if len({len(r) for r in M}) <= 1:
                    return M, (len(M), len(M[0]) if M else 0)
                raise PyRaise(Const('ragged matrix'), 'ValueError', node, m.where(node))
            if all(it(r) is None for r in rows):
                return [[x] for x in rows], (len(rows), 1)
        if len(args) == 3 and isinstance(args[0], Const) and isinstance(args[1], Const) and it(args[2]) is not None:
            r, c, f = args[0].v, args[1].v, it(args[2])
            if len(f) == r * c:
                return [[f[i * c + j] for j in range(c)] for i in range(r)], (r, c)
        return None

    def newmat(self, M, shape=None):
        o = self.matrix(M)
        if shape:
            o.fields['shape_'] = Seq('tuple', [Const(x) for x in shape])
        return o

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if name.startswith('sympy'):
            if sh in MATRIX:
                r = self.tomat(m, args, node)
                if r is not None:
                    return self.newmat(*r)
                return None
            if sh in ('zeros', 'ones', 'eye') and args and all(isinstance(a, Const) for a in args):
                r = args[0].v
                c = args[1].v if len(args) > 1 else r
                return self.newmat([[Const(0 if sh == 'zeros' else 1 if sh == 'ones' or i == j else 0, True) for j in range(c)] for i in range(r)], (r, c))
            if sh == 'diag' and args:
                a = args[0].items if len(args) == 1 and isinstance(args[0], Seq) else args
                return self.newmat([[a[i] if i == j else Const(0, True) for j in range(len(a))] for i in range(len(a))])
            if sh in ('Transpose', 'transpose') and args and self.is_matrix(args[0]):
                return self.transpose(args[0])
            if sh in ('Determinant', 'det') and args and self.mcoef(args[0]) is not None:
                return self.cval(det(self.mcoef(args[0])))
            if sh in ('Trace', 'trace') and args and self.is_matrix(args[0]):
                return self.call_mat(m, args[0], 'trace', [], {}, node)
            if sh in ('simplify', 'expand', 'trigsimp', 'factor', 'cancel', 'together', 'nsimplify') and args:
                if self.is_matrix(args[0]):
                    return self.newmat(self.mdata(args[0]), self.mshape(args[0]))
                if isinstance(args[0], Dct):
                    return Dct([list(i) for i in args[0].items], args[0].open)
                if isinstance(args[0], (T, Const)) and self.val(args[0]) is not None:
                    return self.normal(args[0])
            if sh in ('symbols',) and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
                s = args[0].v.replace(',', ' ').split()
                return self.scal(s[0]) if len(s) == 1 and ',' not in args[0].v else Seq('tuple', [self.scal(x) for x in s])
            if sh in ('Symbol', 'Dummy') and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
                return self.scal(args[0].v)
            if sh == 'Function' and args and isinstance(args[0], Const):
                return T('fnclass', args[0].v, typ='sympy.FunctionClass')
            if sh in ('diff', 'Derivative') and len(args) >= 2:
                return self.diff(m, args[0], list(args[1:]), node)
            if sh == 'sqrt' and len(args) == 1 and self.coef(args[0]) is not None:
                return self.cval(self.root(self.coef(args[0])))
            if sh == 'sympify' and args and self.is_matrix(args[0]):
                return args[0]
        if name in ('builtins.str', 'builtins.repr') and args and isinstance(args[0], (T, Const)):
            s = self.name_of(args[0])
            if s is not None:
                return Const(s)
        if name == 'builtins.len' and args and self.is_matrix(args[0]):
            r, c = self.mshape(args[0])
            return Const(r * c)
        return super().ext(m, name, args, kw, node)

    def name_of(self, v):
        """display name of a single symbol"""
        d = self.val(v) if isinstance(v, T) else None
        if d is None or len(d) != 1:
            return None
        (w, c), = d.items()
        if not w and len(c) == 1:
            (mono, q), = c.items()
            if q == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == 'a':
                return str(mono[0][0][1])
        if len(w) == 1 and c == cconst(1):
            if w[0][0] == 'e':
                return 'e_%s' % (self.coords[w[0][1]] if self.coords else w[0][1] + 1)
        return None

    def normal(self, v):
        d = self.val(v)
        out = {}
        for w, c in d.items():
            if cinvs(c) or any(e < 0 for mo in c for a, e in mo):
                if not clear(c):
                    continue
            out[w] = c
        return self.mk(out)

    def root(self, c):
        if len(c) == 1:
            (mono, q), = c.items()
            if all(e % 2 == 0 for a, e in mono) and q > 0:
                r = csqrt({ONE: q})
                return cmul(r, {tuple((a, e // 2) for a, e in mono): Fraction(1)})
        return csqrt(c)

    def var(self, s):
        """the atom a derivative is taken with respect to"""
        c = self.coef(s)
        if c is None or len(c) != 1:
            return None
        (mono, q), = c.items()
        if q == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
        return None

    def diff(self, m, v, rest, node):
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and self.W.Mv in v.cls.mro():
            s = rest[0]
            n = rest[1] if len(rest) > 1 else Const(1)
            if len(rest) > 2:
                return None
            return m.call_method(v, '_eval_derivative_n_times', [s, n], {}, node)
        if isinstance(v, Obj) and self.is_matrix(v):
            D = self.mdata(v)
            D2 = [[self.diff(m, x, list(rest), node) for x in r] for r in D]
            return None if any(x is None for r in D2 for x in r) else self.newmat(D2, self.mshape(v))
        d = self.val(v) if isinstance(v, (T, Const)) else None
        if d is None:
            return None
        while rest:
            s = rest.pop(0)
            n = 1
            if isinstance(s, Seq) and len(s.items) == 2:
                s, k = s.items
                if not isinstance(k, Const):
                    return None
                n = k.v
            if rest and isinstance(rest[0], Const) and isinstance(rest[0].v, int) and not rest[0].sym:
                n = rest.pop(0).v
            x = self.var(s)
            if x is None or n > 6:
                return None
            for _ in range(n):
                d = {w: cdiff(c, x) for w, c in d.items()}
        return self.mk(d)

    def call(self, m, f, args, kw, node):
        if isinstance(f, T) and f.op == 'fnclass':
            names = [self.var(a) for a in args]
            if any(x is None for x in names):
                return None
            return self.atom(('f', f.args[0], tuple(names)))
        q = self.qual(f)
        if q == 'square_root_of_expr' and len(args) == 1 and self.coef(args[0]) is not None:
            return self.cval(self.root(self.coef(args[0])))
        if q == 'Simp.apply' and q not in self.skip and args and isinstance(args[0], (T, Const)) and self.val(args[0]) is not None:
            return self.normal(args[0])
        if isinstance(f, Cls) and f.ci.name == 'GradedTuple' and len(args) == 1:
            rows = m.iterate(args[0], node) if not isinstance(args[0], Seq) else args[0].items
            if rows is not None and all(isinstance(r, Seq) and r.concrete() for r in rows):
                return self.graded(rows)
        if isinstance(f, Cls) and f.ci.name == 'DotProductSymbol' and len(args) == 2:
            ij = [self.idx_of(a, ('e',)) for a in args]
            if all(ij):
                return self.atom(('g', ij[0][0], ij[1][0]))
        return super().call(m, f, args, kw, node)

    def ga_call(self, m, f, q, args, kw, node):
        """operations of the algebra layer on concrete expressions (decided by C05/C06)"""
        if isinstance(f, Bound) and q not in self.skip and q in ('Ga.reverse', 'Ga.get_grade', 'Ga.scalar_part', 'Ga.even_odd', 'Ga.base_to_blade_rep', 'Ga.blade_to_base_rep', 'Ga.grades'):
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.fn.node.args.args]
                a = self.linb(b[ps[1]]) if q == 'Ga.base_to_blade_rep' else self.lin(b[ps[1]])
                if a is not None:
                    if q == 'Ga.blade_to_base_rep':
                        return self.unlinb(a)
                    if q == 'Ga.reverse':
                        return self.unlin(self.cl.rev(a))
                    if q == 'Ga.base_to_blade_rep':
                        return self.unlin(a)
                    if q == 'Ga.scalar_part':
                        return self.unlin(self.cl.grade(a, 0))
                    if q == 'Ga.get_grade' and isinstance(b[ps[2]], Const):
                        return self.unlin(self.cl.grade(a, b[ps[2]].v))
                    if q == 'Ga.even_odd':
                        even = m.truth(b[ps[2]], node)
                        return self.unlin({w: c for w, c in a.items() if (len(w) % 2 == 0) == even})
                    if q == 'Ga.grades':
                        gs = sorted({len(w) for w, c in a.items() if clear(c)}) or [0]
                        return Seq('list', [Const(x) for x in gs])
        if q == 'Mv.characterise_Mv' and q not in self.skip:
            o = f.self_ if isinstance(f, Bound) else args[0]
            a = self.lin(o)
            if a is not None:
                gs = sorted({len(w) for w, c in a.items() if clear(c)})
                o.fields['char_Mv'] = TRUE
                o.fields['grades'] = Seq('list', [Const(x) for x in (gs or [0])])
                o.fields['i_grade'] = Const(gs[0] if gs else 0) if len(gs) <= 1 else NONE
                return NONE
        if q == 'collect' and args and isinstance(args[0], (T, Const)) and self.val(args[0]) is not None:
            return args[0]
        return super().ga_call(m, f, q, args, kw, node)

    def compare(self, m, op, l, r, node):
        if op in ('==', '!='):
            if self.is_matrix(l) and self.is_matrix(r):
                A, B = self.mcoef(l), self.mcoef(r)
                if A is not None and B is not None:
                    e = self.mshape(l) == self.mshape(r) and all(ceq(x, y) for p, q in zip(A, B) for x, y in zip(p, q))
                    return Const(e == (op == '=='))
            if isinstance(l, (T, Const)) and isinstance(r, (T, Const)):
                if isinstance(l, T) and l.op == 'nc' or isinstance(r, T) and r.op == 'nc':
                    a, b = self.val(l), self.val(r)
                    if a is not None and b is not None:
                        return Const(deq(a, b) == (op == '=='))
        if op in ('is', 'is not') and isinstance(l, T) and l.op == 'nc' and isinstance(r, Const):
            return Const(op == 'is not')
        return super().compare(m, op, l, r, node)

    def keyeq(self, m, a, b):
        if all(isinstance(x, Obj) and isinstance(x.cls, ClassInfo) and self.W.Mv in x.cls.mro() for x in (a, b)):
            x, y = self.lin(a), self.lin(b)
            if x is not None and y is not None:
                return m.same(a.fields.get('Ga'), b.fields.get('Ga')) is True and deq(x, y)
        return None

    def distinct(self, m, l, r):
        if self.is_matrix(l) or self.is_matrix(r):
            return True if not (isinstance(l, T) and l.op != 'nc' or isinstance(r, T) and r.op != 'nc') else None
        return super().distinct(m, l, r)

    def binop(self, m, op, l, r, node):
        if self.is_matrix(l) or self.is_matrix(r):
            return self.matop(m, op, l, r, node)
        v = super().binop(m, op, l, r, node)
        if v is None and op == '/' and isinstance(l, (T, Const)) and isinstance(r, T) and r.op == 'nc' and not self.coef(r) and self.val(r) is not None:
            return None
        return v

    def matop(self, m, op, l, r, node):
        if self.is_matrix(l) and self.is_matrix(r):
            A, B = self.mdata(l), self.mdata(r)
            if op in '+-' and self.mshape(l) == self.mshape(r):
                return self.newmat([[m.binop(op, x, y, node) for x, y in zip(p, q)] for p, q in zip(A, B)], self.mshape(l))
            if op in ('*', '@') and self.mshape(l)[1] == self.mshape(r)[0]:
                out = []
                for i in range(self.mshape(l)[0]):
                    row = []
                    for j in range(self.mshape(r)[1]):
                        s = Const(0, True)
                        for k in range(self.mshape(l)[1]):
                            s = m.binop('+', s, m.binop('*', A[i][k], B[k][j], node), node)
                        row.append(s)
                    out.append(row)
                return self.newmat(out, (self.mshape(l)[0], self.mshape(r)[1]))
            if op in '+-*@':
                raise PyRaise(Const('shape mismatch'), 'ShapeError', node, m.where(node))
            return None
        M, s, left = (l, r, False) if self.is_matrix(l) else (r, l, True)
        if not isinstance(s, (T, Const)) or self.coef(s) is None:
            return None
        if op == '*' or (op == '/' and not left):
            return self.newmat([[m.binop(op, *((s, x) if left else (x, s)), node) for x in row] for row in self.mdata(M)], self.mshape(M))
        if op == '**' and not left and isinstance(s, Const) and s.v == -1:
            return self.call_mat(m, M, 'inv', [], {}, node)
        return None

    def unop(self, m, op, v, node):
        if self.is_matrix(v) and op == 'neg':
            return self.newmat([[m.unop('neg', x, node) for x in r] for r in self.mdata(v)], self.mshape(v))
        return super().unop(m, op, v, node)

    def getitem(self, m, v, idx, node):
        if self.is_matrix(v):
            D = self.mdata(v)
            r, c = self.mshape(v)
            if isinstance(idx, Seq) and len(idx.items) == 2 and all(isinstance(x, Const) and isinstance(x.v, int) for x in idx.items):
                i, j = idx.items[0].v, idx.items[1].v
                if not (-r <= i < r and -c <= j < c):
                    raise PyRaise(Const('index'), 'IndexError', node, m.where(node))
                return D[i][j]
            if isinstance(idx, Const) and isinstance(idx.v, int) and -r * c <= idx.v < r * c:
                k = idx.v % (r * c)
                return D[k // c][k % c]
            return None
        return super().getitem(m, v, idx, node)

    def setitem(self, m, o, i, v, node):
        if self.is_matrix(o) and isinstance(i, Seq) and len(i.items) == 2 and all(isinstance(x, Const) and isinstance(x.v, int) for x in i.items):
            r, c = self.mshape(o)
            a, b = i.items[0].v, i.items[1].v
            if not (-r <= a < r and -c <= b < c):
                raise PyRaise(Const('index'), 'IndexError', node, m.where(node))
            o.fields['rows_'].items[a].items[b] = v
            return True
        return None

    def iterate(self, m, v, node):
        if self.is_matrix(v):
            return [x for r in self.mdata(v) for x in r]
        return super().iterate(m, v, node)

    def call_mat(self, m, o, name, args, kw, node):
        D, (r, c) = self.mdata(o), self.mshape(o)
        if name in ('doit', 'copy', 'simplify', 'expand', 'as_mutable', 'as_immutable', 'trigsimp'):
            return self.newmat(D, (r, c))
        if name in ('transpose',):
            return self.transpose(o)
        if name == 'tolist':
            return Seq('list', [Seq('list', x) for x in D])
        if name == 'trace' and r == c:
            s = Const(0, True)
            for i in range(r):
                s = m.binop('+', s, D[i][i], node)
            return s
        if name in ('row', 'col') and len(args) == 1 and isinstance(args[0], Const):
            k = args[0].v
            return self.newmat([D[k]], (1, c)) if name == 'row' else self.newmat([[D[i][k]] for i in range(r)], (r, 1))
        if name in ('det', 'inv', 'adjugate') and r == c:
            M = self.mcoef(o)
            if M is None:
                return None
            if name == 'det':
                return self.cval(det(M))
            if name == 'inv' and not clear(det(M)):
                raise PyRaise(Const('singular'), 'NonInvertibleMatrixError', node, m.where(node))
            return self.newmat([[self.cval(x) for x in q] for q in (minverse(M) if name == 'inv' else adjugate(M))], (r, c))
        if name == 'applyfunc' and len(args) == 1:
            return self.newmat([[m.call(args[0], [x], {}, node) for x in q] for q in D], (r, c))
        if name in ('subs', 'xreplace', 'diff'):
            D2 = [[m.call(m.getattr(x, name, node), list(args), dict(kw), node) for x in q] for q in D]
            return self.newmat(D2, (r, c))
        if name == 'is_symmetric':
            M = self.mcoef(o)
            return None if M is None else Const(r == c and all(ceq(M[i][j], M[j][i]) for i in range(r) for j in range(r)))
        if name in ('dot', 'multiply') and len(args) == 1 and self.is_matrix(args[0]) and name == 'multiply':
            return self.matop(m, '*', o, args[0], node)
        return None

    def graded(self, rows, name='graded'):
        rows = [r if isinstance(r, Seq) and r.kind == 'tuple' else Seq('tuple', list(r.items)) for r in rows]
        return Obj(name, 'GradedTuple', fields={'flat': Seq('tuple', [x for r in rows for x in r.items]), 'rows': Seq('tuple', rows)})

    def extmethod(self, m, o, name, args, kwargs, node):
        if isinstance(o, Obj) and o.cls == 'GradedTuple' and name == '_map' and len(args) == 1:
            return self.graded([Seq('tuple', [m.call(args[0], [x], {}, node) for x in r.items]) for r in o.fields['rows'].items])
        if self.is_matrix(o):
            return self.call_mat(m, o, name, args, kwargs, node)
        if isinstance(o, (T, Const)) and (isinstance(o, T) and o.op == 'nc' or isinstance(o, Const) and num(o.v)):
            if name == 'diff' and args:
                return self.diff(m, o, list(args), node)
            if name in ('simplify', 'expand', 'trigsimp', 'doit', 'cancel', 'together', 'factor'):
                return self.normal(o)
            if name == 'has' and len(args) == 1:
                x = self.var(args[0])
                if x is not None:
                    return Const(args[0] in m.getattr(o, 'free_symbols', node).items)
            if name in ('subs', 'xreplace'):
                r = self.subst(m, o, name, args, kwargs, node)
                if r is not None:
                    return r
        return super().extmethod(m, o, name, args, kwargs, node)

    def subst(self, m, o, name, args, kwargs, node):
        """substitution of basis symbols and of commutative symbols, simultaneous"""
        pairs = None
        if len(args) == 2:
            pairs = [(args[0], args[1])]
        elif len(args) == 1 and isinstance(args[0], Dct) and args[0].open is None:
            pairs = [(i[0], i[1]) for i in args[0].items]
        elif len(args) == 1 and isinstance(args[0], Seq) and args[0].concrete() and all(isinstance(x, Seq) and len(x.items) == 2 for x in args[0].items):
            pairs = [tuple(x.items) for x in args[0].items]
        if pairs is None:
            return None
        words, ats = {}, {}
        for a, b in pairs:
            if isinstance(b, Obj):
                b = b.fields.get('obj', b) if isinstance(b.cls, ClassInfo) else b
            y = self.val(b) if isinstance(b, (T, Const)) else None
            if y is None:
                return None
            x = self.val(a) if isinstance(a, (T, Const)) else None
            if x == {(): cconst(1)}:
                if y == x:
                    continue
                return None
            at = self.var(a)
            if at is not None:
                if any(w for w in y):
                    return None
                ats.setdefault(at, y.get((), {}))
            elif x is not None and len(x) == 1:
                (w, c), = x.items()
                if c != cconst(1) or len(w) != 1:
                    return None
                words.setdefault(w[0], y)
            else:
                return None
        sim = bool(kwargs.get('simultaneous') is not None and isinstance(kwargs['simultaneous'], Const) and kwargs['simultaneous'].v)
        seq = not sim and name == 'subs'
        if seq:
            # sequential and simultaneous substitution agree unless a value mentions a later key
            keys = list(ats)
            for i, k in enumerate(keys):
                if any(k2 in self.cats(ats[k]) for k2 in keys if k2 != k):
                    return self.subseq(o, [(k, ats[k]) for k in keys], words)
            if any(s in words and s != k for k, y in words.items() for w in y for s in w):
                if ats:
                    return None
                d = self.val(o)
                for k, y in words.items():
                    d = self.dosub(d, {}, {k: y})
                return self.mk(d)
        return self.mk(self.dosub(self.val(o), ats, words))

    def cats(self, c):
        return {at for mo in c for at, e in mo}

    def csub(self, c, ats):
        r = {}
        for mo, q in c.items():
            t = {ONE: q}
            for at, e in mo:
                if at in ats:
                    v = ats[at]
                    t = cmul(t, cpow(v, e) if e > 0 else cpow(cinv(v), -e))
                elif at[0] in ('cinv', 'sqrt') and any(self.deep(at, a) for a in ats):
                    v = self.csub(dict(at[1]), ats)
                    v = cinv(v) if at[0] == 'cinv' else csqrt(v)
                    t = cmul(t, cpow(v, e) if e > 0 else cpow(cinv(v), -e))
                else:
                    t = cmul(t, {((at, e),): Fraction(1)})
            r = cadd(r, t)
        return r

    def deep(self, at, a):
        return at[0] in ('cinv', 'sqrt') and any(x == a or self.deep(x, a) for mo, q in at[1] for x, e in mo)

    def dosub(self, d, ats, words):
        out = {}
        for w, c in d.items():
            x = {(): self.csub(c, ats) if ats else c}
            for s in w:
                x = self.mul(x, words.get(s, {(s,): cconst(1)}))
            out = self.addv(out, x)
        return out

    def subseq(self, o, pairs, words):
        d = self.val(o)
        for k, v in pairs:
            d = self.dosub(d, {k: v}, {})
        if words:
            d = self.dosub(d, {}, words)
        return self.mk(d)


class Build(Conc):
    """an algebra built by interpreting its constructor; `g` is the metric of the finished
    algebra (the products are primitive), `names` the subscripts of the basis vectors"""

    def __init__(self, W, n, g, coords=None, root='e', names=None, skip=()):
        super().__init__(W, n, g, coords, skip)
        names = names or coords or [str(i + 1) for i in range(n)]
        self.root_ = root
        self.bnames = {'%s_%s' % (root, x): ('e', i) for i, x in enumerate(names)}
        self.bnames.update({'%s__%s' % (root, x): ('r', i) for i, x in enumerate(names)})
        self.raw = g

    def call(self, m, f, args, kw, node):
        if isinstance(f, Cls) and f.ci.name == 'BasisVectorSymbol' and args and isinstance(args[0], Const) and args[0].v in self.bnames:
            return self.mk({(self.bnames[args[0].v],): cconst(1)})
        if self.qual(f) == 'square_root_of_expr':
            return None       # interpreted from the source
        return super().call(m, f, args, kw, node)

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if name.startswith('sympy') and args and isinstance(args[0], (T, Const)) and self.coef(args[0]) is not None:
            c = self.coef(args[0])
            if sh == 'sqf_list' and len(c) == 1 and len(args) == 1:
                (mono, q), = c.items()
                if all(e > 0 for a, e in mono):
                    return Seq('tuple', [Const(int(q) if q.denominator == 1 else q, True),
                                         Seq('list', [Seq('tuple', [self.atom(a), Const(e)]) for a, e in mono])])
            if sh == 'Abs' and len(c) <= 1 and not any(c):
                q = c.get((), 0)
                return Const(abs(int(q) if q == int(q) else q), True)
        return super().ext(m, name, args, kw, node)

    def built(self, m, g=None, **kw):
        """interpret Ga(...)"""
        k = {'g': self.matrix(self.raw) if g is None else g}
        if self.coords is not None:
            k['coords'] = Seq('tuple', [self.scal(c) for c in self.coords])
        k.update(kw)
        idx = [x.split('_', 1)[1] for x in self.bnames if '__' not in x]
        return m.call(Cls(self.W.Ga), [Const('%s*%s' % (self.root_, '|'.join(idx) if idx != ['0'] else '1'))], k, None)
