"""C26: the metric of a constructed algebra is the one that was described."""
from rules.curved import *


def run(ck, W):
    ck.rule('metric', 'the metric of the algebra is the one described by its argument, entry by entry, and whether it is orthogonal is read off correctly')
    ck.rule('embedding', 'the metric of a vector manifold or submanifold is the one induced by the embedding')
    ck.rule('normalised', 'a normalised basis squares to the signs of the metric, with the roots of the given entries as scale factors')
    ck.rule('argument', 'the metric passed by the caller is not modified')
    ck.rule('rejects', 'a description that does not fit the basis is rejected')
    strings(ck, W)
    values(ck, W)
    embedded(ck, W)
    return ck.finish('Abstract interpretation of the constructors of algebras and submanifolds over uninterpreted entries, maps and scale factors, compared entry by entry with the metric described.', min_decided=3)


def plain(W, ck, n, g, coords, name, H=Build, **hk):
    if coords is None:
        hk.setdefault('names', [str(i) for i in range(n)] if n == 1 else [str(i + 1) for i in range(n)])
    return Alg(ck, W, n, g, coords, name, H=lambda W, n, g, c: H(W, n, g, c, **hk))


def sym(n):
    return [[{((('g', min(i, j), max(i, j)), 1),): Fraction(1)} for j in range(n)] for i in range(n)]


def spec(n, s):
    """what a metric string says: rows separated by commas, a single row is the diagonal, # a dot product"""
    rows = [r.strip().split(' ') for r in s.split(',')]
    if len(rows) == 1 and n > 1:
        rows = [[x if i == j else '0' for j in range(n)] for i, x in enumerate(rows[0])]
    S = sym(n)
    return [[S[i][j] if x == '#' else cclean(cconst(Fraction(x))) for j, x in enumerate(r)] for i, r in enumerate(rows)]


def cclean(c):
    return {m: q for m, q in c.items() if q}


def wm(W):
    return where(W, W.Ga, '__init__')


def checks(ck, W, A, build, G, rule='metric', name='metric'):
    n = A.n
    A.check(rule, name, lambda m: m.getattr(build(m), 'g', None), A.mat, G, wm(W))
    ortho = not any(cadd({}, G[i][j]) for i in range(n) for j in range(n) if i != j)
    A.check(rule, name + ': orthogonal or not', lambda m: m.getattr(build(m), 'is_ortho', None), A.boolean, ortho, wm(W))
    A.check(rule, name + ': dimension', lambda m: m.getattr(build(m), 'n', None), A.const, n, wm(W))


def strings(ck, W):
    for n, s in ((1, '-3'), (2, '1 -1'), (2, '1/2 0'), (2, '# #'), (2, '# 1/3, 1/3 2'), (2, '0 #, # 0'), (2, '1 0,0 -1'), (3, '1 # -2/3'), (3, '# 0 0, 0 # #, 0 # 1'), (3, '1 0 #, 0 -1 0, # 0 #'), (2, None), (3, None)):
        G = sym(n) if s is None else spec(n, s)
        A = plain(W, ck, n, G, None, 'n=%d' % n)
        kw = {} if s is None else {'g': Const(s)}
        nm = 'metric given as %s' % ('nothing' if s is None else '"%s"' % s)
        checks(ck, W, A, lambda m, A=A, kw=kw: raw(A, m, **kw), G, name=nm)
    for n, s in ((2, '1 1 1'), (3, '1 1'), (2, '1 0 0, 0 1 0'), (2, '1 0, 0 1, 0 0'), (3, '1 0, 0 1'), (2, '1 0 0, 0 1 0, 0 0 1')):
        A = plain(W, ck, n, sym(n), None, 'n=%d' % n)
        ok = ' '.join(['1'] * n)
        A.rejects('rejects', 'metric given as "%s"' % s, lambda m, s=s: raw(A, m, g=Const(s)), lambda m: raw(A, m, g=Const(ok)))


def raw(A, m, cls=None, **kw):
    """a constructor call with exactly these arguments"""
    idx = [x.split('_', 1)[1] for x in A.H.bnames if '__' not in x]
    k = dict(kw)
    if A.H.coords is not None:
        k.setdefault('coords', Seq('tuple', [A.H.scal(c) for c in A.H.coords]))
    return m.call(Cls(cls or A.W.prog.cls('metric', 'Metric')), [Const('%s*%s' % (A.H.root_, '|'.join(idx) if idx != ['0'] else '1'))], k, None)


def values(ck, W):
    for n in (1, 2, 3):
        for ortho in (True, False):
            if n == 1 and not ortho:
                continue
            for co in (None, list(CO[:n])):
                if n == 3 and not ortho and co:
                    continue
                if n == 1 and co:
                    continue
                G = f2(n, ortho=ortho) if co else [[{} if ortho and i != j else {((('a', 'g%d%d' % (min(i, j), max(i, j))), 1),): Fraction(1)} for j in range(n)] for i in range(n)]
                A = plain(W, ck, n, G, co, '%s, n=%d%s' % ('orthogonal' if ortho else 'general', n, ', coordinates' if co else ''))
                H = A.H
                lst = lambda: Seq('list', [Seq('list', [H.cval(x) for x in r]) for r in G])
                forms = [('a matrix', lambda: H.matrix(G)), ('rows', lst)]
                def immutable(H=H, G=G):
                    o = H.matrix(G)
                    o.tag = 'immutable'
                    return o
                forms.append(('an immutable matrix', immutable))
                if ortho:
                    forms.append(('a diagonal', lambda: Seq('list', [H.cval(G[i][i]) for i in range(n)])))
                for fn, f in forms:
                    checks(ck, W, A, lambda m, f=f, A=A: raw(A, m, g=f()), G, name='metric given as %s' % fn)
                    if n == 2:
                        checks(ck, W, A, lambda m, f=f, A=A: raw(A, m, W.Ga, g=f()), G, name='metric of an algebra given as %s' % fn)
    for n, sig in ((2, (1, 1)), (2, (1, -1)), (2, (-1, -1)), (3, (1, -1, 1))):
        h = scale(n)
        G = [[dscale_(cmul(h[i], h[i]), sig[i]) if i == j else {} for j in range(n)] for i in range(n)]
        G1 = [[cconst(sig[i]) if i == j else {} for j in range(n)] for i in range(n)]
        A = plain(W, ck, n, G1, list(CO[:n]), 'normalised, signature %s' % ''.join('+' if s > 0 else '-' for s in sig))
        H = A.H
        for fn, f in (('a matrix', lambda: H.matrix(G)), ('rows', lambda: Seq('list', [Seq('list', [H.cval(x) for x in r]) for r in G])), ('a diagonal', lambda: Seq('list', [H.cval(G[i][i]) for i in range(n)]))):
            b = lambda m, f=f, A=A: raw(A, m, W.Ga, g=f(), norm=TRUE)
            checks(ck, W, A, b, G1, 'normalised', 'metric given as %s' % fn)
            A.check('normalised', 'scale factors of a metric given as %s' % fn, lambda m: m.getattr(b(m), 'e_norm', None), A.seq(A.scal), h, wm(W))
            A.check('normalised', 'unnormalised metric given as %s' % fn, lambda m: m.getattr(b(m), 'g_raw', None), A.mat, G, wm(W))

            def entry(m, f=f, A=A):
                g = f()
                raw(A, m, g=g, norm=TRUE)
                return g

            def rd(v, A=A):
                if isinstance(v, Seq):
                    return [A.seq(A.scal)(x) if isinstance(x, Seq) else A.scal(x) for x in v.items]
                return A.mat(v)
            want = G if fn != 'a diagonal' else [G[i][i] for i in range(n)]
            A.check('argument', 'metric given as %s' % fn, entry, rd, want, wm(W))
    G = [[cconst(4), cconst(1)], [cconst(1), cconst(9)]]
    A = plain(W, ck, 2, G, ['x', 'y'], 'oblique')
    A.rejects('rejects', 'normalising an oblique basis', lambda m: raw(A, m, g=A.H.matrix(G), norm=TRUE), lambda m: raw(A, m, g=A.H.matrix(G)))
    A = plain(W, ck, 2, sym(2), None, '')
    A.rejects('rejects', 'a vector manifold without coordinates', lambda m: raw(A, m, X=Seq('list', [A.H.scal('p'), A.H.scal('q')])), lambda m: raw(A, m))


# ------------------------------------------------------------------ embeddings
def dotx(dX, g, n, N):
    """induced metric: sum_kl g_kl dX_k/du_i dX_l/du_j"""
    return [[csum(cmul(cmul(dX[k][i], dX[l][j]), g[k][l]) for k in range(N) for l in range(N) if g[k][l]) for j in range(n)] for i in range(n)]


class Metric_(Build):
    """a constructor of which only the metric is looked at: Ga(...) is taken as Metric(...), its base class"""

    def call(self, m, f, args, kw, node):
        if self.qual(f) == 'Ga.__init__' and not isinstance(f, Bound) and args:
            me = self.W.prog.cls('metric', 'Metric')
            r = me.lookup('__init__')
            kw = {k: v for k, v in kw.items() if k != 'wedge'}
            return m.call(Bound(m.method_fn(r, '__init__') if hasattr(m, 'method_fn') else Fn(r[1], r[0].module, r[0], None, 'Metric.__init__'), args[0]), args[1:], kw, node)
        return super().call(m, f, args, kw, node)


class Two(Metric_):
    """a submanifold: the base algebra is given, the algebra of the submanifold is built"""

    def base(self, n, g, coords):
        self.g0, self.cl0, self.co0 = g, Cliff(n, lambda i, j: g[i][j]), coords
        self.n0 = n

    def baseobj(self):
        o = Obj('BASE', self.W.Ga)
        rng = lambda: Seq('list', [Const(i) for i in range(self.n0)])
        o.fields.update(name=Const('BASE'), n=Const(self.n0), n_range=rng(), g=self.matrix(getattr(self, 'gn', self.g0)), g_raw=self.matrix(self.g0),
                        coords=Seq('list', [self.scal(c) for c in self.co0]), norm=FALSE, connect_flg=FALSE, dslot=Const(-1), dot_mode=Const('|'), debug=FALSE, par_coords=NONE,
                        basis=Seq('list', [self.mk({(('e', i),): cconst(1)}) for i in range(self.n0)]), gsym=NONE,
                        is_ortho=Const(all(not self.g0[i][j] for i in range(self.n0) for j in range(self.n0) if i != j)))
        self.bobj = o
        return o

    def within(self, f):
        save = self.cl, self.gm, self.ortho, self.n
        self.cl, self.gm, self.ortho, self.n, self._bt = self.cl0, self.g0, all(not self.g0[i][j] for i in range(self.n0) for j in range(self.n0) if i != j), self.n0, None
        try:
            return f()
        finally:
            (self.cl, self.gm, self.ortho, self.n), self._bt = save, None

    def product(self, m, op, name, args, kw, node, ga):
        if ga is getattr(self, 'bobj', 0):
            return self.within(lambda: super(Two, self).product(m, op, name, args, kw, node, ga))
        return super().product(m, op, name, args, kw, node, ga)

    def getattr(self, m, o, name, node):
        if o is getattr(self, 'bobj', 0):
            return self.within(lambda: super(Two, self).getattr(m, o, name, node))
        return super().getattr(m, o, name, node)

    def ga_call(self, m, f, q, args, kw, node):
        if isinstance(f, Bound) and f.self_ is getattr(self, 'bobj', 0):
            return self.within(lambda: super(Two, self).ga_call(m, f, q, args, kw, node))
        return super().ga_call(m, f, q, args, kw, node)


def metric(A, m, **kw):
    """the metric of a vector manifold"""
    k = dict(kw, coords=Seq('tuple', [A.H.scal(c) for c in A.H.coords]))
    o = m.call(Cls(A.W.prog.cls('metric', 'Metric')), [Const('e')], k, None)
    return m.getattr(o, 'g', None)


def sub(A, m, u, us, kw=None, meth=False):
    b = A.H.baseobj()
    args = [u(b), Seq('tuple', [A.H.scal(c) for c in us])]
    if meth:
        o = m.call_method(b, 'sm', args, dict(kw or {}), None)
    else:
        o = m.call(Cls(A.W.prog.cls('ga', 'Sm')), args, dict(kw or {}, ga=b), None)
    return o


def embedded(ck, W):
    # vector manifolds X(u, ..) in a Euclidean space
    for n, N in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 3)):
        co = CO[:n]
        X = [fn('X%d' % k, co) for k in range(N)]
        dX = [[cdiff(x, ('a', c)) for c in co] for x in X]
        E = [[cconst(1) if k == l else {} for l in range(N)] for k in range(N)]
        G = dotx(dX, E, n, N)
        A = plain(W, ck, n, G, list(co), 'vector manifold of dimension %d in %d' % (n, N), H=Metric_)
        A.check('embedding', 'metric', lambda m, A=A, X=X: metric(A, m, X=Seq('list', [A.H.cval(x) for x in X])), A.mat, G, wm(W))
    for n, N, kind in ((1, 2, 'general'), (1, 2, 'oblique'), (2, 2, 'general'), (2, 2, 'oblique'), (2, 3, 'general'), (1, 3, 'oblique'), (3, 3, 'oblique')):
        co = CO[:N]
        at = lambda *k: {tuple((('a', x), 1) for x in sorted(k)): Fraction(1)}
        const = [[{} if kind != 'oblique' and i != j else at('g%d%d' % (min(i, j), max(i, j))) for j in range(N)] for i in range(N)]
        # entries depending on all coordinates
        dep = [[cadd(const[i][j], cmul(at('h%d%d' % (min(i, j), max(i, j))), cadd(at(co[0]), csum(cmul(at(c), at(c, 'k%d' % k)) for k, c in enumerate(co[1:]))))) if const[i][j] else {} for j in range(N)] for i in range(N)]
        for nm, g0, swap in (('constant base metric', const, False), ('base metric depending on the coordinates', dep, False), ('parameters named like base coordinates', dep, True)):
            if swap and n == 1 and N == 2:
                us = (co[1],)
            else:
                us = tuple(co[:n]) if swap else ('u', 'v', 'w')[:n]
            X = [fn('X%d' % k, us) for k in range(N)]
            if swap:
                X = [cadd(at(us[(k + 1) % n]), cmul(cconst(2), at(us[k % n]))) if k < n else fn('X2', us) for k in range(N)]
            dX = [[cdiff(x, ('a', c)) for c in us] for x in X]
            A = plain(W, ck, n, [[cconst(1)] * n] * n, list(us), 'map into dimension %d, %s, %s' % (N, kind, nm), H=Two)
            H = A.H
            mp = dict(zip([('a', c) for c in co], X))
            gs = [[H.csub(e, mp) for e in r] for r in g0]
            G = dotx(dX, gs, n, N)
            H.base(N, g0, list(co))
            if kind == 'general' and not swap:
                H.gn = [[cconst(1 - 2 * (i % 2)) if i == j else {} for j in range(N)] for i in range(N)]      # a normalised base
            u = lambda b, H=H, X=X: Seq('list', [H.cval(x) for x in X])
            for meth in (False, True):
                A.check('embedding', 'metric of a submanifold of dimension %d%s' % (n, ', made by the base algebra' if meth else ''),
                        lambda m: m.getattr(sub(A, m, u, us, meth=meth), 'g', None), A.mat, G, where(W, A.W.prog.cls('ga', 'Sm'), '__init__'))
            A.rejects('rejects', 'a map into another dimension', lambda m: sub(A, m, lambda b: Seq('list', [H.cval(x) for x in X] + [H.scal('q')]), us), lambda m: sub(A, m, u, us))
        # a vector function of the parameters in a flat base
        us = ('u', 'v', 'w')[:n]
        if kind == 'oblique':
            continue
        A = plain(W, ck, n, [[cconst(1)] * n] * n, list(us), 'vector function in dimension %d, %s' % (N, kind), H=Two)
        H = A.H
        X = [fn('X%d' % k, us) for k in range(N)]
        dX = [[cdiff(x, ('a', c)) for c in us] for x in X]
        G = dotx(dX, const, n, N)
        H.base(N, const, list(co))
        u = lambda b: H.mvobj(b, {(k,): x for k, x in enumerate(X)}, 'u')
        A.check('embedding', 'metric of a submanifold of dimension %d' % n, lambda m: m.getattr(sub(A, m, u, us), 'g', None), A.mat, G, where(W, A.W.prog.cls('ga', 'Sm'), '__init__'))
        A.check('embedding', 'tangent vectors of a submanifold of dimension %d' % n, lambda m: m.getattr(sub(A, m, u, us), 'ebasis', None), A.seq(A.mv),
                [{(k,): dX[k][j] for k in range(N)} for j in range(n)], where(W, A.W.prog.cls('ga', 'Sm'), '__init__'))


def fn(name, co):
    return {((('f', name, tuple(('a', c) for c in co)), 1),): Fraction(1)}
