"""C18: linear transformations (Lt)."""
from rules.concrule import *


def outer(cl, imgs, d):
    """outermorphism: imgs[j] = image of e_j as {(i,): coefficient}"""
    out = {}
    for w, c in d.items():
        x = {(): cconst(1)}
        for j in w:
            x = cl.product('wedge', x, imgs[j])
        out = dadd(out, dscale(x, c))
    return out


def imgs_of(M):
    n = len(M)
    return [{(i,): M[i][j] for i in range(n) if M[i][j]} for j in range(n)]


def run(ck, W):
    ck.rule('apply', 'a transformation applied to a multivector is the outermorphism of the images of the basis vectors: linear, and the image of an outer product is the outer product of the images')
    ck.rule('construct', 'every way of building a transformation (dict, list of images, list of rows, matrix, function, versor, symbolic) gives the map its argument describes')
    ck.rule('matrix', 'the columns of the matrix of a transformation are the images of the basis vectors, and dictionary and matrix form convert into each other')
    ck.rule('algebra', 'sum, difference, scalar multiple and composition act pointwise')
    ck.rule('invariant', 'determinant, trace, adjoint, inverse and singularity test satisfy their defining equations')
    ck.rule('reject', 'a function that is not linear or not vector-valued, a multivector that is not a versor, a matrix of the wrong size and a singular map to be inverted are rejected')
    ck.rule('pure', 'using a transformation (applying, printing its matrix, adding, composing) changes neither it nor the state of the algebra')
    for n, g, nm in ((2, gatoms(2, False), 'general metric, n=2'), (3, gatoms(3, True), 'orthogonal metric, n=3')):
        one(ck, W, n, g, nm)
    for n, g, nm in ((2, gatoms(2, True), 'orthogonal metric without coordinates, n=2'), (2, gatoms(2, False), 'general metric without coordinates, n=2')):
        one(ck, W, n, g, nm, False)
    return ck.finish('Abstract interpretation of the transformation classes over a whole algebra with uninterpreted metric and coefficients: '
                     'the results are elements of a free module over the field of fractions of these atoms, where equality is decidable, '
                     'and are compared with the outermorphism defined by the images of the basis vectors.', min_decided=3)


def one(ck, W, n, g, nm, coords=True):
    A = Alg(ck, W, n, g, [('x', 'y', 'z')[i] for i in range(n)] if coords else None, nm)
    H = A.H
    cl = H.cl
    R = range(n)
    a = [[H.sym('a%d%d' % (i, j)) for j in R] for i in R]
    b = [[H.sym('b%d%d' % (i, j)) for j in R] for i in R]
    cv = H.cval
    vec = lambda col: H.unlin(col)
    ia, ib = imgs_of(a), imgs_of(b)
    X = H.general('X')
    V = H.general('v', (1,))

    def lt(m, ga, arg, **kw):
        return m.call(m.getattr(ga, 'lt', None), [arg], kw, None)

    def dct(im):
        return Dct([[H.blade((j,)), vec(im[j])] for j in R])

    def L(m, ga, im=ia):
        return lt(m, ga, dct(im))

    def apply(m, F, d, ga):
        return m.call(F, [H.mvobj(ga, d, 'X')], {}, None)
    wh = lambda name: where(W, W.Lt, name)
    # ---- application
    for subj, d in (('a vector', V), ('a general multivector', X), ('a scalar', {(): H.sym('s')}), ('zero', {}), ('the pseudoscalar', {tuple(R): H.sym('p')}),
                    ('a bivector', H.general('B', (2,)))):
        def entry(m, d=d):
            ga = H.ga()
            return apply(m, L(m, ga), d, ga)
        A.check('apply', 'image of %s' % subj, entry, A.mv, outer(cl, ia, d), wh('__call__'))

    for subj, d in (('a bivector', H.general('B', (2,))), ('a general multivector', X), ('a vector', V)):
        def entry(m, d=d):
            ga = H.ga()
            return m.call(L(m, ga), [H.basemv(ga, d, 'X')], {}, None)
        A.check('apply', 'image of %s in base representation' % subj, entry, A.mv, outer(cl, ia, d), wh('__call__'))

    def entry(m):
        ga = H.ga()
        return m.call(L(m, ga), [H.unlin(X)], {'obj': TRUE}, None)
    A.check('apply', 'image of an expression, as an expression', entry, A.mv, outer(cl, ia, X), wh('__call__'))

    def entry(m):
        ga = H.ga()
        return m.call(L(m, ga), [H.unlin(V)], {}, None)
    A.check('apply', 'image of a basis expression', entry, A.mv, outer(cl, ia, V), wh('__call__'))
    # ---- constructors
    col = lambda im: A.seq(A.mv)

    def images(m, F, ga):
        return Seq('list', [apply(m, F, {(j,): cconst(1)}, ga) for j in R] + [apply(m, F, X, ga)])

    def cons(subj, mk, im, rule='construct'):
        def entry(m):
            ga = H.ga()
            return images(m, mk(m, ga), ga)
        A.check(rule, subj, entry, A.seq(A.mv), [im[j] for j in R] + [outer(cl, im, X)], wh('__init__'))

        def entry(m):
            return m.call_method(mk(m, H.ga()), 'matrix', [], {}, None)
        A.check('matrix', 'matrix of a transformation built from %s' % subj, entry, A.mat, [[im[j].get((i,), {}) for j in R] for i in R], wh('matrix'))
    cons('a dict', lambda m, ga: lt(m, ga, dct(ia)), ia)
    part = [ia[0]] + [{} for j in R][1:]
    cons('a dict that leaves out basis vectors', lambda m, ga: lt(m, ga, Dct([[H.blade((0,)), vec(ia[0])]])), part)
    cons('a list of image vectors', lambda m, ga: lt(m, ga, Seq('list', [H.mvobj(ga, ia[j]) for j in R])), ia)
    cons('a list of coefficient lists', lambda m, ga: lt(m, ga, Seq('list', [Seq('list', [cv(a[i][j]) for i in R]) for j in R])), ia)
    cons('a matrix', lambda m, ga: lt(m, ga, H.matrix(a)), ia)
    cons('a sparse matrix', lambda m, ga: lt(m, ga, H.matrix([[a[i][j] if i == 0 else {} for j in R] for i in R])), imgs_of([[a[i][j] if i == 0 else {} for j in R] for i in R]))
    cons('a function', lambda m, ga: lt(m, ga, Prim('F', lambda mm, ar, k, nd: H.mvobj(ga, outer(cl, ia, H.lin(ar[0])), 'F(x)'))), ia)
    cons('the zero function', lambda m, ga: lt(m, ga, Prim('F', lambda mm, ar, k, nd: H.mvobj(ga, {}, 'F(x)'))), [{} for j in R])
    # versors: reflection in a vector (a basis direction and, for an orthogonal metric, a general one) and a rotor
    gi = lambda i: g[i][i]
    refl = []
    for j in R:
        # -e0 x e0^-1 = x - 2 (x.e0) e0 / e0^2
        refl.append(dadd({(j,): cconst(1)}, {(0,): cmul(cmul(cconst(-2), g[0][j]), cinv(gi(0)))}) if g[0][j] else {(j,): cconst(1)})
    cons('a basis vector as versor', lambda m, ga: lt(m, ga, H.mvobj(ga, {(0,): cconst(1)}, 'V')), refl)
    q = {(): {}}
    v2 = {}
    for i in R:
        for j in R:
            v2 = cadd(v2, cmul(cmul(V[(i,)], V[(j,)]), g[i][j]))
    rg = []
    for j in R:
        xv = {}
        for i in R:
            xv = cadd(xv, cmul(V[(i,)], g[i][j]))
        rg.append(dadd({(j,): cconst(1)}, {(i,): cmul(cmul(cmul(cconst(-2), xv), V[(i,)]), cinv(v2)) for i in R}))
    cons('a general vector as versor', lambda m, ga: lt(m, ga, H.mvobj(ga, V, 'V')), rg)
    # e0 e1 = product of two reflections
    rot = [outer(cl, refl, outer(cl, [dadd({(j,): cconst(1)}, {(1,): cmul(cmul(cconst(-2), g[1][j]), cinv(gi(1)))}) if g[1][j] else {(j,): cconst(1)} for j in R], {(k,): cconst(1)})) for k in R]
    cons('a product of two basis vectors as versor', lambda m, ga: lt(m, ga, H.mvobj(ga, cl.gp((0,), (1,)), 'V')), rot)
    # ---- symbolic matrices
    for f in (False, True) if coords else ():
        for mode in 'gsa':
            def entry(m, f=f, mode=mode):
                ga = H.ga()
                F = lt(m, ga, Const('A'), mode=Const(mode), **({'f': TRUE} if f else {}))
                return m.call_method(F, 'matrix', [], {}, None)

            def rd(v, f=f, mode=mode):
                M = A.mat(v)
                P = M if mode == 'g' else mmul(g, M)
                ok = []
                if mode == 's':
                    ok.append(all(ceq(P[i][j], P[j][i]) for i in R for j in R))
                if mode == 'a':
                    ok.append(all(not clear(cadd(P[i][j], P[j][i])) for i in R for j in R))
                ats = set()
                for row in M:
                    for c in row:
                        for x in H.cats(c):
                            ats |= {x} if x[0] in ('a', 'f') else set()
                ats = {x for x in ats if x[0] == ('f' if f else 'a')}
                return [len(ats)] + ok
            want = [{'g': n * n, 's': n * (n + 1) // 2, 'a': n * (n - 1) // 2}[mode]] + ([True] if mode != 'g' else [])
            A.check('construct', 'symbolic %s matrix%s: number of independent entries and symmetry' % ({'g': 'general', 's': 'symmetric', 'a': 'antisymmetric'}[mode], ' of functions' if f else ''),
                    entry, rd, want, wh('__init__'))
    # ---- matrix conversions
    lmod = W.prog.module('lt')

    def entry(m):
        ga = H.ga()
        return m.call(m.module_name(lmod, 'Dictionary_to_Matrix'), [dct(ia), ga], {}, None)
    A.check('matrix', 'dictionary to matrix', entry, A.mat, a)

    def entry(m):
        ga = H.ga()
        d = m.call(m.module_name(lmod, 'Matrix_to_dictionary'), [H.matrix(a), ga.fields['basis']], {}, None)
        return Seq('list', [m.getitem(d, H.blade((j,)), None) for j in R])
    A.check('matrix', 'matrix to dictionary', entry, A.seq(A.mv), ia)

    def entry(m, shape=None):
        ga = H.ga()
        return lt(m, ga, H.matrix([[H.sym('k')] * (n + 1) for i in range(n + 1)] if shape is None else shape))
    A.rejects('reject', 'a square matrix of another dimension', entry, lambda m: L(m, H.ga()))
    A.rejects('reject', 'a matrix with too few columns', lambda m: entry(m, [[H.sym('k')] * (n - 1) for i in R]), lambda m: L(m, H.ga()))
    A.rejects('reject', 'a matrix with too few rows', lambda m: entry(m, [[H.sym('k')] * n for i in range(n - 1)]), lambda m: L(m, H.ga()))

    def fn(f):
        def entry(m):
            ga = H.ga()
            return lt(m, ga, Prim('F', lambda mm, ar, k, nd: H.mvobj(ga, f(H.lin(ar[0])), 'F(x)')))
        return entry
    ctl = fn(lambda x: outer(cl, ia, x))
    A.rejects('reject', 'an affine function', fn(lambda x: dadd(x, {(0,): cconst(1)})), ctl)
    A.rejects('reject', 'a quadratic function', fn(lambda x: {(0,): cmul(x.get((0,), {}), x.get((0,), {}))}), ctl)
    A.rejects('reject', 'a homogeneous function that is not additive', fn(lambda x: {(0,): cmul(cmul(x.get((0,), {}), x.get((1,), {})), cinv(cadd(x.get((0,), {}), x.get((1,), {}))))}), ctl)
    A.rejects('reject', 'an additive function that is not homogeneous in a coordinate', fn(lambda x: {(0,): x.get((0,), {}), (1,): cmul(x.get((1,), {}), x.get((0,), {}))}), ctl)
    A.rejects('reject', 'a linear function with bivector values', fn(lambda x: cl.product('wedge', {(0,): cconst(1)}, x)), ctl)
    A.rejects('reject', 'a linear function with scalar values', fn(lambda x: {(): x.get((0,), {})}), ctl)
    if n == 2:
        nonv = {(): cconst(1), (0,): cconst(1)}
    else:
        nonv = {(): H.sym('s'), (0, 1): H.sym('p'), (2,): H.sym('q')}
    A.rejects('reject', 'a multivector of mixed parity', lambda m: (lambda ga: lt(m, ga, H.mvobj(ga, nonv, 'V')))(H.ga()),
              lambda m: (lambda ga: lt(m, ga, H.mvobj(ga, {(0,): cconst(1)}, 'V')))(H.ga()))
    A.rejects('reject', 'an argument of no supported kind', lambda m: lt(m, H.ga(), Const(3)), ctl)
    if coords:
        A.rejects('reject', 'an unknown symmetry mode', lambda m: lt(m, H.ga(), Const('A'), mode=Const('q')), lambda m: lt(m, H.ga(), Const('A'), mode=Const('s')))

    # ---- algebra
    def alg(subj, f, im, name):
        def entry(m):
            ga = H.ga()
            return images(m, f(m, ga), ga)
        A.check('algebra', subj, entry, A.seq(A.mv), [im[j] for j in R] + [outer(cl, im, X)], wh(name))
    k = H.sym('k')
    alg('F + G', lambda m, ga: m.binop('+', L(m, ga), L(m, ga, ib), None), [dadd(ia[j], ib[j]) for j in R], '__add__')
    alg('F - G', lambda m, ga: m.binop('-', L(m, ga), L(m, ga, ib), None), [dadd(ia[j], ib[j], -1) for j in R], '__sub__')
    alg('F * G', lambda m, ga: m.binop('*', L(m, ga), L(m, ga, ib), None), [outer(cl, ia, ib[j]) for j in R], '__mul__')
    alg('F * k', lambda m, ga: m.binop('*', L(m, ga), cv(k), None), [dscale(ia[j], k) for j in R], '__mul__')
    alg('k * F', lambda m, ga: m.binop('*', cv(k), L(m, ga), None), [dscale(ia[j], k) for j in R], '__rmul__')
    alg('F * 2', lambda m, ga: m.binop('*', L(m, ga), Const(2), None), [dscale(ia[j], cconst(2)) for j in R], '__mul__')
    vers = lambda m, ga: lt(m, ga, H.mvobj(ga, {(0,): cconst(1)}, 'V'))
    alg('versor + G', lambda m, ga: m.binop('+', vers(m, ga), L(m, ga, ib), None), [dadd(refl[j], ib[j]) for j in R], '__add__')
    alg('versor - G', lambda m, ga: m.binop('-', vers(m, ga), L(m, ga, ib), None), [dadd(refl[j], ib[j], -1) for j in R], '__sub__')
    alg('F + partial', lambda m, ga: m.binop('+', L(m, ga), lt(m, ga, Dct([[H.blade((1,)), vec(ib[1])]])), None), [dadd(ia[j], ib[j]) if j == 1 else ia[j] for j in R], '__add__')
    alg('partial - F', lambda m, ga: m.binop('-', lt(m, ga, Dct([[H.blade((1,)), vec(ib[1])]])), L(m, ga), None), [dadd(ib[j] if j == 1 else {}, ia[j], -1) for j in R], '__sub__')
    # ---- invariants
    ma = a

    def meth(name, mat=a):
        def entry(m):
            return m.call_method(lt(m, H.ga(), H.matrix(mat)), name, [], {}, None)
        return entry
    A.check('invariant', 'determinant', meth('det'), A.scal, det(a), wh('det'))
    A.check('invariant', 'trace', meth('tr'), A.scal, _tr(a), wh('tr'))
    fa = [[H.fn('A%d%d' % (i, j)) for j in R] for i in R]
    A.check('invariant', 'trace of a coordinate-dependent transformation', meth('tr', fa), A.scal, _tr(fa), wh('tr'))

    def entry(m):
        ga = H.ga()
        f = m.module_name(lmod, 'det')
        return m.call(f, [L(m, ga)], {}, None)
    A.check('invariant', 'determinant, function', entry, A.scal, det(a))
    V2 = H.general('w', (1,))

    def entry(m):
        ga = H.ga()
        F = m.call_method(L(m, ga), 'adj', [], {}, None)
        return apply(m, F, V, ga)

    def dot(u, w):
        return cl.product('left_contract', u, w).get((), {})

    def rd(v):
        # w . adj(v)  with  v . F(w)
        u = A.mv(v)
        return [dot({(j,): cconst(1)}, u) for j in R]
    A.check('invariant', 'adjoint: u.F(v) = v.adj(F)(u)', entry, rd, [dot(V, ia[j]) for j in R], wh('adj'))

    def entry(m):
        ga = H.ga()
        F = m.call_method(L(m, ga), 'inv', [], {}, None)
        return m.call_method(F, 'matrix', [], {}, None)
    A.check('invariant', 'inverse', entry, A.mat, minverse(a), wh('inv'))
    A.check('invariant', 'singularity of a general transformation', meth('is_singular'), A.boolean, False, wh('is_singular'))
    sing = [[cmul(H.sym('s%d' % i), H.sym('t%d' % j)) for j in R] for i in R]
    A.check('invariant', 'singularity of a transformation of rank one', meth('is_singular', sing), A.boolean, True, wh('is_singular'))
    A.rejects('reject', 'inverting a transformation of rank one', meth('inv', sing), meth('inv'))
    # ---- no side effects
    uses = {'apply': lambda m, F, ga: apply(m, F, X, ga), 'matrix': lambda m, F, ga: m.call_method(F, 'matrix', [], {}, None), 'det': lambda m, F, ga: m.call_method(F, 'det', [], {}, None),
            'tr': lambda m, F, ga: m.call_method(F, 'tr', [], {}, None), 'adj': lambda m, F, ga: m.call_method(F, 'adj', [], {}, None), 'inv': lambda m, F, ga: m.call_method(F, 'inv', [], {}, None),
            'is_singular': lambda m, F, ga: m.call_method(F, 'is_singular', [], {}, None), '+': lambda m, F, ga: m.binop('+', F, L(m, ga, ib), None), '-': lambda m, F, ga: m.binop('-', F, L(m, ga, ib), None),
            '*': lambda m, F, ga: m.binop('*', F, L(m, ga, ib), None), 'right +': lambda m, F, ga: m.binop('+', L(m, ga, ib), F, None), 'right -': lambda m, F, ga: m.binop('-', L(m, ga, ib), F, None),
            'right *': lambda m, F, ga: m.binop('*', L(m, ga, ib), F, None), 'scalar *': lambda m, F, ga: m.binop('*', cv(k), F, None), '* scalar': lambda m, F, ga: m.binop('*', F, cv(k), None)}
    for u, f in uses.items():
        def entry(m, f=f):
            ga = H.ga()
            F = L(m, ga)
            ga.fields['connect_flg'] = Const('c')
            f(m, F, ga)
            st = Seq('list', [m.getattr(ga, 'connect_flg', None), m.getattr(ga, 'dslot', None)])
            ga.fields['connect_flg'] = FALSE
            return Seq('list', [images(m, F, ga), m.call_method(F, 'matrix', [], {}, None), st])
        A.check('pure', 'a transformation and its algebra after %s' % u, entry, lambda v: [A.seq(A.mv)(v.items[0]), A.mat(v.items[1]), A.seq(A.const)(v.items[2])],
                [[ia[j] for j in R] + [outer(cl, ia, X)], a, ['c', -1]], wh('__init__'))


def _tr(M):
    r = {}
    for i in range(len(M)):
        r = cadd(r, M[i][i])
    return r
