"""Coordinate systems: algebras whose metric depends on the coordinates, built by
interpreting their constructor, with the differential geometry they should have."""
from rules.concrule import *
from sa.conc import Build

CO = ('x', 'y', 'z', 't')


def csum(xs):
    r = {}
    for x in xs:
        r = cadd(r, x)
    return r


HALF = {(): Fraction(1, 2)}


class Geo:
    """the geometry of a coordinate metric G (functions of the coordinates): Christoffel symbols,
    and for a normalised basis the scale factors h"""

    def __init__(self, G, coords, h=None, G1=None):
        n = len(G)
        self.n, self.G, self.h = n, G, h
        self.R = R = range(n)
        self.xs = xs = [('a', c) for c in coords]
        self.dG = dG = [[[cdiff(G[i][j], xs[k]) for k in R] for j in R] for i in R]
        # first kind: G1[i][j][k] = (d_i G_jk + d_j G_ik - d_k G_ij)/2
        self.G1 = [[[cmul(HALF, cadd(cadd(dG[j][k][i], dG[i][k][j]), dG[i][j][k], -1)) for k in R] for j in R] for i in R]
        self.Ginv = minverse(G)
        self.G2 = [[[csum(cmul(self.G1[i][j][l], self.Ginv[l][k]) for l in R) for k in R] for j in R] for i in R]
        # metric of the basis in use and d_i of its vectors
        if h is None:
            self.g = G
            self.ginv = self.Ginv
            self.de = [[{(k,): self.G2[i][j][k] for k in R if self.G2[i][j][k]} for j in R] for i in R]
        else:
            self.g = G1
            self.ginv = minverse(G1)
            self.de = []
            for i in R:
                row = []
                for j in R:
                    d = {}
                    hj = cinv(h[j])
                    for k in R:
                        c = cmul(cmul(self.G2[i][j][k], h[k]), hj)
                        if k == j:
                            c = cadd(c, cmul(cdiff(h[j], xs[i]), hj), -1)
                        if c:
                            d[(k,)] = c
                    row.append(d)
                self.de.append(row)

    def attach(self, cl):
        self.cl = cl
        self.dbl = {}

    def dblade(self, i, w):
        """d_i of the basis blade w"""
        if (i, w) not in self.dbl:
            s = {}
            for p in range(len(w)):
                x = {w[:p]: cconst(1)}
                x = self.cl.product('wedge', x, self.de[i][w[p]])
                s = dadd(s, self.cl.product('wedge', x, {w[p + 1:]: cconst(1)}))
            self.dbl[(i, w)] = s
        return self.dbl[(i, w)]

    def D(self, i, A):
        """covariant (= partial) derivative of a field along coordinate i"""
        out = {w: cdiff(c, self.xs[i]) for w, c in A.items()}
        out = {w: c for w, c in out.items() if c}
        for w, c in A.items():
            out = dadd(out, dscale(self.dblade(i, w), c))
        return out

    def recip(self, i):
        """e^i with e^i . e_j = delta_ij"""
        return {(j,): self.ginv[i][j] for j in self.R if self.ginv[i][j]}

    def gradvec(self, i):
        """the vector multiplying d_i in the gradient: reciprocal to the coordinate basis"""
        r = self.recip(i)
        return r if self.h is None else dscale(r, cinv(self.h[i]))


def f2(n, name='G', ortho=False, co=CO):
    cs = tuple(('a', c) for c in co[:n])
    return [[{} if ortho and i != j else {((('f', '%s%d%d' % (name, min(i, j), max(i, j)), cs), 1),): Fraction(1)} for j in range(n)] for i in range(n)]


def scale(n, name='h', co=CO):
    cs = tuple(('a', c) for c in co[:n])
    return [{((('f', '%s%d' % (name, i), cs), 1),): Fraction(1)} for i in range(n)]


def systems(ck, W, tier):
    """[(Alg, Geo, build(m) -> ga)]"""
    out = []

    def add(n, G, name, h=None, G1=None, coords=None, **kw):
        co = list(coords or CO[:n])
        geo = Geo(G, co, h, G1)
        A = Alg(ck, W, n, geo.g, co, name, H=Build)
        A.H.raw = G
        geo.attach(A.H.cl)
        if h is not None:
            kw = dict(kw, norm=TRUE)
        out.append((A, geo, lambda m, A=A, kw=kw: A.H.built(m, **kw)))

    def norm(n, sig):
        h = scale(n)
        G = [[dscale_(cmul(h[i], h[i]), sig[i]) if i == j else {} for j in range(n)] for i in range(n)]
        G1 = [[cconst(sig[i]) if i == j else {} for j in range(n)] for i in range(n)]
        return G, h, G1
    add(2, f2(2, ortho=True), 'orthogonal coordinates, n=2')
    add(2, f2(2), 'oblique coordinates, n=2')
    for sig in ((1, 1), (1, -1)):
        G, h, G1 = norm(2, sig)
        add(2, G, 'normalised orthogonal coordinates, signature %s, n=2' % ''.join('+' if s > 0 else '-' for s in sig), h, G1)
    G, h, G1 = norm(3, (1, 1, 1))
    add(3, G, 'normalised orthogonal coordinates, n=3', h, G1)
    add(3, f2(3, ortho=True), 'orthogonal coordinates, n=3')
    add(2, [[{((('a', 'c%d%d' % (min(i, j), max(i, j))), 1),): Fraction(1)} for j in range(2)] for i in range(2)], 'oblique basis with constant metric, n=2')
    G = f2(2)
    for i in range(2):
        G[i][i] = {((('a', 'c%d' % i), 1),): Fraction(1)}
    add(2, G, 'oblique coordinates with unit lines, n=2')
    if tier == 'thorough':
        add(3, f2(3), 'oblique coordinates, n=3')
    return out


def dscale_(c, q):
    return {m: x * q for m, x in c.items()}
