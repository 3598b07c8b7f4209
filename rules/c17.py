"""C17: reciprocal bases, inverse metric and derivatives with respect to multivectors."""
from rules.curved import *


def run(ck, W):
    ck.rule('reciprocal', 'the reciprocal basis vectors satisfy e^i . e_j = delta_ij, up to the documented factor E^2 where the result is not normalised')
    ck.rule('metric', 'g_inv is the inverse of the metric, e_sq the square of the pseudoscalar, and i, i_inv invert each other')
    ck.rule('frame', 'the reciprocal frame of any independent vectors lies in their span and is dual to them, with or without the factor E^2')
    ck.rule('derivative', 'the derivative with respect to a multivector variable is built with the reciprocal blades: the derivative of <A_ B> is B')
    ck.rule('history', 'derivatives with respect to other variables built before change nothing')
    for A, geo, build in systems(ck, W, ck.tier) + flat(ck, W):
        one(ck, W, A, geo, build)
    return ck.finish('Abstract interpretation of the constructor of an algebra with uninterpreted metric, of its reciprocal basis and of the derivative with respect to a multivector; '
                     'results are rational functions of the metric entries, compared with the defining equations.', min_decided=3)


def flat(ck, W):
    out = []
    for n, ortho in ((1, True), (2, False), (3, True), (3, False)):
        g = [[{} if ortho and i != j else {((('a', 'g%d%d' % (min(i, j), max(i, j))), 1),): Fraction(1)} for j in range(n)] for i in range(n)]
        geo = Geo(g, CO[:n])
        A = Alg(ck, W, n, g, None, 'no coordinates, %s metric, n=%d' % ('orthogonal' if ortho else 'general', n), H=lambda W, n, g, coords: Build(W, n, g, None, names=['1', '2', '3'][:n] if n > 1 else ['0']))
        geo.attach(A.H.cl)
        out.append((A, geo, lambda m, A=A: A.H.built(m)))
    for n in (2, 3):
        g = f2(n, ortho=n == 3)
        geo = Geo(g, CO[:n])
        A = Alg(ck, W, n, g, list(CO[:n]), 'symbolic determinant, n=%d' % n, H=Gsym)
        geo.attach(A.H.cl)
        out.append((A, geo, lambda m, A=A: A.H.built(m, gsym=Const('g'))))
    return out


class Gsym(Build):
    """a symbolic name for the determinant of the metric stands for that determinant"""

    def ext(self, m, name, args, kw, node):
        if name.rsplit('.', 1)[-1] == 'Determinant' and len(args) == 1 and not self.is_matrix(args[0]) and mentions(args[0], 'g'):
            if not mentions_coef(self, args[0]):
                return self.atom(('a', 'determinant that does not depend on the coordinates'))
            return self.cval(det(self.gm))
        return super().ext(m, name, args, kw, node)


def mentions_coef(H, v, depth=4):
    """does the value depend on all coordinates?"""
    seen = set()

    def go(v, depth):
        if isinstance(v, (T, Const)) and H.coef(v) is not None:
            seen.update(at for mo in H.coef(v) for at, e in mo)
        elif depth and isinstance(v, T):
            [go(x, depth - 1) for x in v.args]
        elif depth and isinstance(v, Seq):
            [go(x, depth - 1) for x in v.items]
    go(v, depth)
    return all(('a', c) in seen for c in H.coords or ())


def mentions(v, s, depth=6):
    if isinstance(v, Const):
        return v.v == s
    if depth and isinstance(v, T):
        return any(mentions(x, s, depth - 1) for x in v.args)
    if depth and isinstance(v, Seq):
        return any(mentions(x, s, depth - 1) for x in v.items)
    return False


def one(ck, W, A, geo, build):
    H, n, R, cl = A.H, A.n, range(A.n), A.H.cl
    wh = lambda name: where(W, W.Ga, name)
    top = {tuple(R): cconst(1)}
    esq = cl.product('mul', top, top).get((), {})
    rec = [geo.recip(i) for i in R]
    raw = rec if H.ortho else [dscale(r, esq) for r in rec]
    vs = A.seq(A.mv)
    A.check('reciprocal', 'mvr()', lambda m: m.call_method(build(m), 'mvr', [], {}, None), vs, rec, wh('mvr'))
    A.check('reciprocal', 'mvr(norm=False)', lambda m: m.call_method(build(m), 'mvr', [], {'norm': FALSE}, None), vs, raw, wh('mvr'))
    A.check('reciprocal', 'r_basis', lambda m: m.getattr(build(m), 'r_basis', None), vs, raw, wh('r_basis'))
    A.check('reciprocal', 'r_basis_mv', lambda m: m.getattr(build(m), 'r_basis_mv', None), vs, raw, wh('r_basis_mv'))

    def dct(v):
        if not isinstance(v, Dct) or v.open is not None:
            raise NoRead(short(v))
        return {A.H.val(k[0]) and list(A.H.val(k[0]))[0]: A.mv(k[1]) for k in v.items}
    A.check('reciprocal', 'r_basis_dict', lambda m: m.getattr(build(m), 'r_basis_dict', None), lambda v: [dct(v).get((('r', i),), {}) for i in R], raw, wh('r_basis_dict'))
    A.check('metric', 'g_inv', lambda m: m.getattr(build(m), 'g_inv', None), A.mat, geo.ginv, wh('g_inv'))
    A.check('metric', 'g', lambda m: m.getattr(build(m), 'g', None), A.mat, geo.g)
    A.check('metric', 'e_sq', lambda m: m.getattr(build(m), 'e_sq', None), A.scal, esq, wh('e_sq'))

    def entry(m):
        ga = build(m)
        i, j = m.call_method(ga, 'I', [], {}, None), m.getattr(ga, 'i_inv', None)
        return Seq('list', [m.binop('*', i, j, None), m.binop('*', j, i, None), m.call_method(ga, 'E', [], {}, None)])
    A.check('metric', 'pseudoscalar and its inverse', entry, vs, [{(): cconst(1)}, {(): cconst(1)}, top])
    # ---- frames
    u, v = H.general('u', (1,)), H.general('v', (1,))
    frames = [('one vector', [u])]
    if n >= 2 and not any(c for r in geo.G for x in r for mo in x for (at, e) in mo if at[0] == 'f' for c in [1] if not H.ortho):
        frames.append(('two vectors', [u, v]))
    if n == 3:
        w = {(0,): H.sym('w0'), (2,): cconst(1)}
        frames.append(('three vectors', [{(0,): cconst(1), (1,): H.sym('u1')}, {(1,): H.sym('v1'), (2,): cconst(2)}, w]))
    for nm, fr in frames:
        G = [[cl.product('hestenes_dot', a, b).get((), {}) for b in fr] for a in fr]
        if not clear(det(G)):
            continue
        E = {(): cconst(1)}
        for a in fr:
            E = cl.product('wedge', E, a)
        E2 = cl.product('mul', E, E).get((), {})
        Gi = minverse(G)
        want = []
        for i in range(len(fr)):
            s = {}
            for j, b in enumerate(fr):
                s = dadd(s, dscale(b, Gi[i][j]))
            want.append(s)
        for mode in ('norm', 'append', None):
            def entry(m, fr=fr, mode=mode):
                ga = build(m)
                kw = {} if mode is None else {'mode': Const(mode)}
                return m.call_method(ga, 'ReciprocalFrame', [Seq('list', [H.mvobj(ga, a, 'v') for a in fr])], kw, None)
            if mode == 'append':
                rd = lambda r: [A.mv(x) for x in r.items[:-1]] + [{(): A.scal(r.items[-1])}]
                wt = [dscale(x, E2) for x in want] + [{(): E2}]
            else:
                rd, wt = vs, want
            A.check('frame', 'reciprocal frame of %s, %s' % (nm, mode or 'default mode'), entry, rd, wt, wh('ReciprocalFrame'))
    # ---- derivatives with respect to a multivector
    rb = {}
    for w in cl.subsets:
        x = {(): cconst(1)}
        for i in reversed(w):
            x = cl.product('wedge', x, rec[i])
        rb[w] = x
    C = H.general('c')
    for nm, gr in (('vector', (1,)), ('multivector', None), ('bivector', (2,))):
        X = H.general('X', gr)
        if not X:
            continue
        f = csum(cmul(C[w], X[w]) for w in X)
        want = {}
        for w in X:
            want = dadd(want, dscale(rb[w], C[w]))
        for side in ('left', 'right'):
            for hist in (False, True):
                def entry(m, X=X, f=f, side=side, hist=hist):
                    ga = build(m)
                    a = H.mvobj(ga, X, 'a')
                    if hist:
                        m.call_method(ga, 'make_grad', [H.mvobj(ga, {w: H.sym('Y' + ''.join(map(str, w))) for w in X}, 'b')], {}, None)
                        m.call_method(ga, 'make_grad', [a], {'cmpflg': FALSE if side == 'right' else TRUE}, None)
                    D = m.call_method(ga, 'make_grad', [a], {'cmpflg': TRUE if side == 'right' else FALSE}, None)
                    F = H.mvobj(ga, {(): f}, 'F')
                    return m.binop('*', F, D, None) if side == 'right' else m.binop('*', D, F, None)
                A.check('history' if hist else 'derivative', 'derivative with respect to a %s, acting from the %s%s' % (nm, side, ' after others' if hist else ''), entry, A.mv, want, wh('make_grad'))

    def entry(m):
        ga = build(m)
        D = m.call_method(ga, 'make_grad', [Seq('list', [H.scal('q%d' % i) for i in R])], {}, None)
        return m.binop('*', D, H.mvobj(ga, {(): csum(cmul(H.sym('c%d' % i), H.sym('q%d' % i)) for i in R)}, 'F'), None)
    want = {}
    for i in R:
        want = dadd(want, dscale(rec[i], H.sym('c%d' % i)))
    A.check('derivative', 'derivative with respect to the vector of given coefficients', entry, A.mv, want, wh('make_grad'))
