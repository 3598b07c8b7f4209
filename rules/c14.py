"""C14: operations on exact operands stay exact."""
from rules.client import *
from rules.c02 import one, RecMixin
from rules.curved import f2
from sa.conc import Build

# library functions whose value is a decimal approximation or a truncation
APPROX = {'N', 'evalf', 'Float', 'nsimplify', 'nfloat', 'nsolve', 'lambdify', 'float', 'round', 'complex', 'n'}
TRUNC = {'int', 'floor', 'ceiling', 'round', 'trunc'}
MODULES = ('math.', 'cmath.', 'numpy.', 'mpmath.', 'scipy.', 'sympy.mpmath', 'random.')


class ExactMixin:
    """an event wherever an approximate number meets an expression"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.inexact = []
        self.cur = None

    def flag(self, m, node, what):
        if m is not None:
            self.inexact.append((m.where(node), what, [c for c, v in m.factlog if not isinstance(c, Const)]))

    def symbolic(self, v):
        if isinstance(v, Obj):
            return isinstance(v.cls, ClassInfo) and (self.W.Mv in v.cls.mro() or self.W.Dop in v.cls.mro()) or self.is_matrix(v)
        return isinstance(v, T) and super().val(v) is not None or isinstance(v, Const) and v.sym

    def val(self, v):
        if isinstance(v, Const) and isinstance(v.v, float):
            self.flag(self.cur, None, 'the floating point number %r becomes a coefficient' % v.v)
            return {(): cconst(Fraction(v.v).limit_denominator(10 ** 9))} if v.v else {}
        return super().val(v)

    def binop(self, m, op, l, r, node):
        for a, b in ((l, r), (r, l)):
            if isinstance(a, Const) and isinstance(a.v, float) and self.symbolic(b):
                self.flag(m, node, 'the floating point number %r meets an expression' % a.v)
        if op == '//' and (self.symbolic(l) or self.symbolic(r)):
            self.flag(m, node, 'a quotient of expressions is truncated')
        return super().binop(m, op, l, r, node)

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if args and any(self.symbolic(x) for x in args):
            if name.startswith('sympy') and sh in APPROX or name.startswith(MODULES) or name.startswith('builtins.') and sh in ('float', 'round', 'complex'):
                self.flag(m, node, '%s approximates an expression' % sh)
            elif (name.startswith(('sympy', 'math.')) and sh in TRUNC or name == 'builtins.int') and any(isinstance(x, T) and self.symbolic(x) for x in args):
                self.flag(m, node, '%s truncates an expression' % sh)
        for x in args:
            if isinstance(x, Const) and isinstance(x.v, float) and name.startswith('sympy'):
                self.flag(m, node, 'the floating point number %r becomes an expression' % x.v)
        if name.startswith('sympy') and sh in ('Float', 'RealNumber'):
            self.flag(m, node, 'a floating point number is made')
        if name.startswith('sympy') and 'rational' in kw and isinstance(kw['rational'], Const) and kw['rational'].v is False:
            self.flag(m, node, 'numbers are not kept rational')
        return super().ext(m, name, args, kw, node)

    def extmethod(self, m, obj, name, args, kw, node):
        if name in APPROX and self.symbolic(obj):
            self.flag(m, node, '%s approximates an expression' % name)
        return super().extmethod(m, obj, name, args, kw, node)


class ERec(ExactMixin, CRec):
    pass


class EBuild(ExactMixin, CBuild):
    pass


def run(ck, W):
    ck.rule('exact', 'no floating point number, approximation or truncation reaches a value computed from exact operands')

    def judge(A, Env, subj, op, where_, fails):
        H = A.H

        def entry(m):
            H.cur, H.inexact = m, []
            E = Env(m)
            go = op(m, E)
            try:
                v = go()
            except PyRaise as e:
                v = None
            m.c14 = list(H.inexact)
            if v is not None:
                m.c14 += tainted(H, m, v)
            return NONE
        settle(ck, A, subj, entry, where_)
    for n, g, nm in ((2, gatoms(2, False), 'general metric, n=2'), (3, gatoms(3, True), 'orthogonal metric, n=3')):
        one(ck, W, n, g, nm, cls=ERec, judge=judge)
    one(ck, W, 2, f2(2, ortho=True), 'orthogonal coordinates, n=2', cls=EBuild, judge=judge)
    more(ck, W)
    return ck.finish('Abstract interpretation of every public operation with Python numbers and expressions kept apart: quotients of Python integers and decimal literals are floating point '
                     'values, followed to the expressions they reach.', min_decided=100)


def tainted(H, m, v, depth=0):
    if isinstance(v, Const) and isinstance(v.v, float):
        return [(m.where(None), 'the value contains the floating point number %r' % v.v, [c for c, v in m.factlog if not isinstance(c, Const)])]
    out = []
    if depth < 5:
        if isinstance(v, Seq):
            for x in v.items:
                out += tainted(H, m, x, depth + 1)
        elif isinstance(v, Dct):
            for i in v.items:
                out += tainted(H, m, i[0], depth + 1) + tainted(H, m, i[1], depth + 1)
        elif isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and H.W.Ga not in v.cls.mro():
            for k, x in v.fields.items():
                if k != 'Ga':
                    out += tainted(H, m, x, depth + 1)
    return out


def settle(ck, A, subj, entry, where_=None):
    try:
        tr = A.I.run(entry)
    except RecursionError:
        ck.undecided('exact', subj, 'recursion')
        return
    if not tr:
        ck.undecided('exact', subj, 'no path')
        return
    for t in tr:
        ev = getattr(t.m, 'c14', None)
        if ev is None or t.kind != 'return':
            ck.undecided('exact', subj, '%s %s' % (t.kind, short(t.exc, 100)))
            return
        if ev:
            und = ev[0][2]
            if und:
                ck.undecided('exact', subj, 'undecided condition %s' % short(und[0], 150))
            else:
                ck.bad('exact', subj, ev[0][0] or where_ or 'galgebra', ev[0][1], facts_of(t))
            return
    ck.ok('exact', subj)


MORE = ['ga.com(A, B)', 'k << A', 'k >> A', '3 << A', '3 >> A', 'A << k', 'A >> 3', 'k + A', 'k - A', '3 - A', 'k ^ A', '3 ^ v', 'k | A', 'k < A', '3 < v', 'k > A', '3 * A', 'A - k', 'A ^ 3', 'A | k', 'A < 3', 'A > k', 'A / 3', 'A / k', 'A == 3', 'k + D', '3 - D', 'k * F', '3 * F', 'F / 3' if False else 'F * k', 's.inv()', 'v.inv()', 'e12.inv()', '(3 * e1).inv()', '(2 + 3 * e1).inv()', 's / v', 'ga.e_sq', 'ga.i', 'ga.i_inv', 'ga.grade_decomposition(A)', 'A.get_grade(1)', 'A.blade_coefs()', 'A.list()', 'A.components()', 'A.get_coefs(1)', 'rot(3 * e12, v)', 'rot(3 * e12, A)', 'Mv.Mul(A, B)', '3 / v', 'v / 3', 'v ** -1', 'v ** -2', 'A ** 3', 'A.exp() if 0 else (3 * e12).exp()', '(k * e12).exp()', 'e1.exp()', 'refl(e12, v)', 'proj(e12, v)', 'e12.is_versor()',
        'v.norm2()', 'v.mag2()', 'v.qform()', 'abs(3 * e1)', '(3 * e1).norm()', '(2 * e12).mag()', 'e1.hitzer_inverse()', 'v.hitzer_inverse()', '(1 + e12).hitzer_inverse()', 'v.shirokov_inverse()', '(1 + e1).shirokov_inverse()',
        'ga.Christoffel_symbols(1)', 'ga.Christoffel_symbols(2)', 'ga.grad * A', 'ga.grad ^ A', 'ga.grad | A', 'ga.grad < A', 'A * ga.rgrad', 'ga.grad * ga.grad * v', 'D * A', 'D ^ A', 'D + E', 'D - E', 'D / 3', 'D / k', '2 * D', 'Sd * Se', 'Sd / 3' if False else 'Sd * x',
        'F.det()', 'F.inv()', 'F.adj()', 'F.tr()', 'F * G', 'F(A)', 'F.matrix()', 'ga.lt(2 + 3 * e12)', "ga.lt('L', mode='s')", "ga.lt('L', mode='a')", 'ga.lt(M).det()', 'T2(v, w)', 'T2.contract(1, 2)', 'T2.pdiff(1)', 'T2.cderiv()', 'A << B', 'A >> B',
        'ga.mvr()', 'ga.ReciprocalFrame([v, w])', 'ga.E()', 'ga.I()', 'A.dual()', 'A.undual()', 'A.even()', 'A.odd()', 'A.ccon()', 'A.rev()', 'A.g_invol()', 'cross(v, w)', 'ga.g_inv', 'ga.detg', 'ga.g_adj', 'A.trigsimp()', 'A.simplify()', 'A.diff(x)', 'A.subs({x: 3})', 'A.func(lambda c: c)']


def more(ck, W):
    for n, g, co, nm, cls in ((2, gatoms(2, False), ('x', 'y'), 'general metric, n=2', ERec), (3, gatoms(3, True), ('x', 'y', 'z'), 'orthogonal metric, n=3', ERec),
                              (2, f2(2), ('x', 'y'), 'oblique coordinates, n=2', EBuild), (2, f2(2, ortho=True), ('x', 'y'), 'orthogonal coordinates, n=2', EBuild),
                              (2, [[cconst(-1), {}], [{}, cconst(2)]], ('x', 'y'), 'numerical metric, n=2', ERec), (4, gatoms(4, True), ('x', 'y', 'z', 't'), 'orthogonal metric, n=4', ERec)):
        A = Alg(ck, W, n, g, list(co), nm, H=(lambda W, n, g, c, cls=cls: cls(W, n, g, c, skip=SKIP)) if cls is ERec else cls)
        H = A.H
        C = Client(A)
        for src in MORE:
            if n == 4 and 'hitzer' not in src and 'shirokov' not in src and 'dual' not in src and 'com' not in src:
                continue
            if 'cross' in src and n != 3:
                continue
            body = C.entry(src)

            def entry(m, body=body):
                H.cur, H.inexact = m, []
                try:
                    v = body(m)
                except PyRaise as e:
                    v = None
                m.c14 = list(H.inexact) + (tainted(H, m, v) if v is not None else [])
                return NONE
            settle(ck, A, '%s [%s]' % (src, nm), entry)
    from rules.c17 import Gsym

    class GS(ExactMixin, Gsym):
        pass
    for n in (2, 3):
        A = Alg(ck, W, n, f2(n, ortho=n == 3), ['x', 'y', 'z'][:n], 'named determinant, n=%d' % n, H=GS)
        H = A.H
        for what in ('e_sq', 'i', 'i_inv', 'g_inv', 'detg'):
            def entry(m, H=H, what=what):
                H.cur, H.inexact = m, []
                g = H.built(m, gsym=Const('g'))
                v = m.getattr(g, what, None)
                m.c14 = list(H.inexact) + tainted(H, m, v)
                return NONE
            settle(ck, A, 'ga.%s [%s]' % (what, A.name), entry)
    for n in (1, 2, 3):
        for ortho in (True, False):
            A = Alg(ck, W, n, f2(n, ortho=ortho), ['x', 'y', 'z'][:n], '%s coordinates, n=%d' % ('orthogonal' if ortho else 'oblique', n), H=EBuild)
            H = A.H
            for what in ('g_inv', 'detg', 'g_adj', 'dg', 'de'):
                def entry(m, H=H, what=what, A=A):
                    H.cur, H.inexact = m, []
                    g = m.call(Cls(W.prog.cls('metric', 'Metric')), [Const('e')], {'g': H.matrix(H.raw), 'coords': Seq('tuple', [H.scal(c) for c in H.coords])}, None)
                    try:
                        v = m.getattr(g, what, None)
                    except PyRaise:
                        v = NONE
                    m.c14 = list(H.inexact) + tainted(H, m, v)
                    return NONE
                settle(ck, A, 'Metric.%s [%s]' % (what, A.name), entry)
    # constructors
    for n, g, nm, kw in ((2, f2(2), 'oblique coordinates, n=2', {}), (2, f2(2, ortho=True), 'orthogonal coordinates, n=2', {}), (2, gatoms(2, False), 'general metric, n=2', {}), (3, gatoms(3, True), 'orthogonal metric, n=3', {})):
        A = Alg(ck, W, n, g, ['x', 'y', 'z'][:n], nm, H=EBuild)
        H = A.H

        def entry(m, H=H, kw=kw):
            H.cur, H.inexact = m, []
            v = H.built(m, **kw)
            m.c14 = list(H.inexact)
            for k, x in v.fields.items():
                m.c14 += tainted(H, m, x)
            return NONE
        settle(ck, A, 'the construction of the algebra [%s]' % nm, entry)
    for n, s in ((1, '1/3'), (2, '1/3 -2/7'), (2, '1 1/3, 1/3 2'), (3, '1/3 # -2/3'), (2, '# 1/3, 1/3 #')):
        A = Alg(ck, W, n, gatoms(n, False), None, 'n=%d' % n, H=lambda W, n, g, c: EBuild(W, n, g, c, names=[str(i + 1) for i in range(n)] if n > 1 else ['0']))
        H = A.H

        def entry(m, H=H, s=s, n=n):
            H.cur, H.inexact = m, []
            ga = m.call(Cls(W.prog.cls('metric', 'Metric')), [Const('e*%s' % '|'.join(str(i + 1) for i in range(n)))], {'g': Const(s)}, None)
            M = m.getattr(ga, 'g', None)
            m.c14 = list(H.inexact)
            if H.is_matrix(M):
                for r in H.mdata(M):
                    for x in r:
                        m.c14 += tainted(H, m, x)
            return NONE
        settle(ck, A, 'metric given as "%s" [n=%d]' % (s, n), entry)
