"""C27: simplification, substitution and functions of coefficients act on each coefficient alone."""
from rules.client import *
from rules.concrule import *

SK = SKIP + ('Simp.apply',)


class URec(CRec):
    """functions of the library that rewrite an expression are uninterpreted: they keep its value, and are seen in the log"""

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if name.startswith('sympy') and sh in ('simplify', 'trigsimp', 'expand', 'factor', 'cancel', 'together', 'collect', 'nsimplify', 'ratsimp', 'powsimp', 'radsimp') and len(args) >= 1 and isinstance(args[0], (T, Const)):
            d = self.val(args[0])
            if d is not None and not any(d):
                return self.mk(d)
        return super().ext(m, name, args, kw, node)


def run(ck, W):
    ck.rule('function', 'a function of coefficients is applied exactly once to the coefficient of each blade, several in the order given, and the blades and derivatives stay')
    ck.rule('value', 'the simplifications of the library, which keep the value of a coefficient, keep the value of the multivector or operator')
    ck.rule('substitution', 'a substitution replaces the symbols in every coefficient, and only there')
    ck.rule('profile', 'the simplification chosen with Simp.profile is the one applied')
    c = cconst
    for n, g, nm in ((2, gatoms(2, False), 'general metric, n=2'), (3, gatoms(3, True), 'orthogonal metric, n=3'), (1, gatoms(1, True), 'n=1'),
                     (4, [[c([1, 1, -1, 0][i]) if i == j and i < 3 else {} for j in range(4)] for i in range(4)], 'degenerate metric, n=4')):
        one(ck, W, n, g, nm)
    return ck.finish('Abstract interpretation of the coefficient-wise operations on multivectors and operators with uninterpreted functions of the coefficients; the result is compared, blade by blade, with the definition.', min_decided=50)


def one(ck, W, n, g, nm):
    A = Alg(ck, W, n, g, ['x', 'y', 'z', 't'][:n], nm, H=lambda W, n, g, co: URec(W, n, g, co, skip=SK))
    H = A.H
    C = Client(A)
    mods = {}

    def uf(name):
        def f(m, a, k, nd):
            d = H.coef(a[0]) if len(a) == 1 and not k else None
            if d is None:
                dd = H.val(a[0]) if a else None
                if dd is not None and any(dd):
                    raise PyRaise(Const('a function of coefficients is given a blade'), 'WrongUse', nd, m.where(nd))
                return T('applied', *a[:1])
            return H.scal('%s(%s)' % (name, show_c(d)))
        return fn(['c'], f)
    F = {k: (lambda m, get, k=k: uf(k)) for k in ('f', 'g', 'h')}
    app = lambda ks, cc: cc if not ks else app(ks[1:], H.coef(H.scal('%s(%s)' % (ks[0], show_c(cc)))))

    def mapped(d, ks):
        return {w: app(ks, cc) for w, cc in d.items() if cc}

    def value(src):
        """components of a client expression"""
        out = []

        def go(m):
            out.append(read(C.entry(src, **F)(m, {})))
            return NONE
        del out[:]
        tr = A.I.run(go)
        return out[0] if len(tr) == 1 and tr[0].kind == 'return' else None

    def read(v):
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo):
            if W.Mv in v.cls.mro():
                return A.mv(v)
            ts = v.fields.get('terms')
            if isinstance(ts, Seq):
                out = []
                for t in ts.items:
                    if not (isinstance(t, Seq) and len(t.items) == 2 and isinstance(t.items[1], Obj)):
                        raise NoRead(short(t, 200))
                    p = t.items[1].fields.get('pdiffs')
                    if not isinstance(p, Dct):
                        raise NoRead(short(t, 200))
                    co = t.items[0]
                    out.append((A.mv(co) if isinstance(co, Obj) else {(): A.scal(co)}, sorted((show_c(H.coef(i[0])), i[1].v) for i in p.items)))
                fl = v.fields.get('cmpflg')
                return ('terms', sorted(out, key=lambda x: x[1]), bool(fl.v) if isinstance(fl, Const) else None)
        d = H.lin(v)
        if d is None:
            raise NoRead(short(v, 200))
        return d

    def same(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a[1]) == len(b[1]) and a[2] == b[2] and all(x[1] == y[1] and deq(x[0], y[0]) for x, y in zip(a[1], b[1]))
        if isinstance(a, tuple) or isinstance(b, tuple):
            return False
        return deq(a, b)

    def pp(a):
        if isinstance(a, tuple):
            return '; '.join('(%s) d%s' % (show(x), dict(p)) for x, p in a[1]) + (' from the left' if a[2] else '')
        return show(a)

    class Res:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            return same(self.v, o.v)

        def __str__(self):
            return pp(self.v)

    def check(rule, src, want, pre=None):
        e = C.entry(src, **F)

        def go(m):
            if pre:
                pre(m)
            return e(m, {})
        A.check(rule, src, go, lambda v: Res(read(v)), Res(want))

    def lift(w, ks):
        if isinstance(w, tuple):
            return (w[0], [(mapped(d, ks), p) for d, p in w[1]], w[2])
        return mapped(w, ks)
    MV = ['A', 'v', 's', 'e1', 'A + k', '2 * e1 - k', 'k * (l + x) * e1 - 1', 'A - A.even()', 'A * v', 'zero'] + (['b', 'e12', 'k * e12 + l * e1 + k * e1', 'v * w', '(v * w).even()', 'A.base_rep()', '(A + B).blade_rep()'] if n > 1 else []) + (['A.odd()'] if n > 2 else [])
    if n == 4:
        MV = ['A', 'v', 'b', 'k * e1234 - e1 + l * e1', 'A.even()', 'v * w']
    base = {}
    for s in MV:
        b = value(s)
        if b is None:
            continue
        base[s] = b
        if '.base_rep()' not in s and s != 'zero':
            check('function', '(%s).func(f)' % s, lift(b, 'f'))
            check('function', '(%s).simplify(f)' % s, lift(b, 'f'))
            check('function', '(%s).simplify(modes=f)' % s, lift(b, 'f'))
            check('function', '(%s).simplify([f, g])' % s, lift(b, 'fg'))
            check('function', '(%s).simplify((g, f, h))' % s, lift(b, 'gfh'))
            check('function', '(%s).simplify([])' % s, b)
        for f in ('simplify()', 'expand()', 'trigsimp()', 'collect()', 'simplify([])', 'blade_rep()'):
            check('value', '(%s).%s' % (s, f), b)
        check('value', '(%s).func(lambda c: 2 * c)' % s, {w: cmul(cconst(2), x) for w, x in b.items()})
    # operators
    ops = ['D', 'Dr', 'ga.grad', 'ga.rgrad', 'k * D', 'v * ga.grad'] + (['ga.dop([v, A, s], [P, P * Q, Q])', 'ga.dop([v, A], [P, Q], cmpflg=True)'] if n > 1 else ['ga.dop([v, A], [P, P * P])'])
    if n < 4:
        sd = ['Sd', 'Sdop([(k + l, P)])', 'Sdop([(k, P), (l - k, P * P), (x, Pdop({}))])'] if n > 1 else ['Sdop([(k + l, P)])', 'Sdop([(k, P), (l - k, P * P), (x, Pdop({}))])']
        if n == 1:
            ops = [o for o in ops if o not in ('D', 'Dr', 'k * D')]
        for s in ops + sd:
            b = value(s)
            if b is None:
                continue
            check('function', '(%s).simplify(f)' % s, lift(b, 'f'))
            check('function', '(%s).simplify([f, g])' % s, lift(b, 'fg'))
            check('function', '(%s).simplify(modes=(g, f))' % s, lift(b, 'gf'))
            check('value', '(%s).simplify()' % s, b)
            check('value', '(%s).TSimplify()' % s, b)
            for src, ks in (('f', 'f'), ('[g, f]', 'gf')):
                def prof(m, src=src):
                    C.entry('Simp.profile(%s)' % src, **F)(m, {})
                check('profile', '(%s).TSimplify()' % s, lift(b, ks), prof)
    for s, b in base.items():
        for src, ks in (('f', 'f'), ('[g, f]', 'gf'), ('(f, h)', 'fh')):
            if '.base_rep()' in s or s == 'zero':
                continue

            def prof(m, src=src):
                C.entry('Simp.profile(%s)' % src, **F)(m, {})
            check('profile', 'Simp.applymv(%s)' % s, lift(b, ks), prof)
            check('profile', 'Simp.apply((%s).obj)' % s, lift(b, ks), prof)
        check('value', 'Simp.applymv(%s)' % s, b)
    # substitution
    x, k, l = (H.coef(H.scal(q)) for q in ('x', 'k', 'l'))
    kx = cmul(k, x)
    one_ = cconst(1)
    e1, I = (0,), tuple(range(n))
    P = {e1: cadd(kx, l), (): cmul(x, x)}
    src = '(k * x + l) * e1 + x * x'
    if n > 1:
        P[(0, 1)] = cadd(cmul(l, l), cneg(x))
        src += ' + (l ** 2 - x) * e12'
    sub = lambda d, **r: {w: csub_(cc, r) for w, cc in d.items()}

    def csub_(cc, r):
        out = {}
        for mn, q in cc.items():
            t = cconst(q)
            for at, e in mn:
                if at[1] in r:
                    for _ in range(e):
                        t = cmul(t, r[at[1]])
                else:
                    t = cmul(t, {((at, e),): Fraction(1)})
            out = cadd(out, t)
        return out
    for a, r in (('x, k', {'x': k}), ('{x: k}', {'x': k}), ('k, 0', {'k': {}}), ('l, 1', {'l': one_}), ('{k: l, l: k}, simultaneous=True', {'k': l, 'l': k}), ('[(x, 2)]', {'x': cconst(2)}), ('x, k + l', {'x': cadd(k, l)}), ('{x: 1, l: 2}', {'x': one_, 'l': cconst(2)})):
        check('substitution', '(%s).subs(%s)' % (src, a), {w: cc for w, cc in sub(P, **r).items() if cc})
    check('substitution', '(zero).subs(x, k)', {})
    check('substitution', '(e1).subs(x, k)', {e1: one_})
