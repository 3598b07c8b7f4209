"""C16: derivatives in curvilinear coordinates."""
from rules.curved import *


def run(ck, W):
    ck.rule('connection', 'the derivatives of the basis vectors and the Christoffel symbols are those of the metric (or of the normalised basis)')
    ck.rule('field', 'the derivative of a multivector field along a coordinate differentiates the coefficients and the basis blades, the latter by the product rule')
    ck.rule('grad', 'the gradient in every product and on either side contracts the derivatives with the vectors reciprocal to the coordinate basis')
    ck.rule('history', 'derivatives computed before, along other coordinates or of other blades, change nothing')
    ck.rule('pure', 'differentiating changes neither the field nor the algebra')
    for A, geo, build in systems(ck, W, ck.tier):
        one(ck, W, A, geo, build)
    return ck.finish('Abstract interpretation of the constructor of an algebra with a general coordinate-dependent metric and of its derivative operations; every result is '
                     'a rational function of uninterpreted functions and their derivatives, compared with the Levi-Civita connection of the metric.', min_decided=3)


def one(ck, W, A, geo, build):
    H, n, R = A.H, A.n, range(A.n)
    wh = lambda name, c=None: where(W, c or W.Ga, name)
    vecs = A.seq(A.seq(A.mv))
    flat = not any(c for r in geo.de for d in r for c in d.values())
    if not flat:
        A.check('connection', 'derivatives of the basis vectors', lambda m: m.getattr(build(m), 'de', None), vecs, geo.de, wh('_update_de_from_rbasis'))
    A.check('connection', 'whether the basis vectors depend on the coordinates', lambda m: m.getattr(build(m), 'connect_flg', None), A.boolean, not flat, wh('connect_flg'))
    sc3 = A.seq(A.seq(A.seq(A.scal)))
    A.check('connection', 'derivatives of the metric', lambda m: m.getattr(build(m), 'dg', None), sc3, geo.dG, wh('dg'))
    if geo.h is None and not flat:
        for mode, G in ((1, geo.G1), (2, geo.G2)):
            A.check('connection', 'Christoffel symbols of the %s kind' % ('first', 'second')[mode - 1],
                    lambda m, mode=mode: m.call_method(build(m), 'Christoffel_symbols', [], {'mode': Const(mode)}, None), sc3, G, wh('Christoffel_symbols'))
    cl = H.cl
    F = H.general('F', fns=True)
    S = {(): F[()]}
    V = {w: c for w, c in F.items() if len(w) == 1}
    coord = lambda i: H.scal(H.coords[i])

    def field(m, ga, d, base=False):
        return (H.basemv if base else H.mvobj)(ga, d, 'F')
    kinds = [('field', F), ('vector field', V), ('scalar field', S)]
    # ---- derivative along a coordinate
    for nm, d in kinds:
        for i in R:
            for how in ('pDiff', 'diff', 'Pdop', 'base representation'):
                def entry(m, d=d, i=i, how=how):
                    ga = build(m)
                    X = field(m, ga, d, how == 'base representation')
                    if how in ('pDiff', 'base representation'):
                        return m.call_method(ga, 'pDiff', [X, coord(i)], {}, None)
                    if how == 'diff':
                        return m.call_method(X, 'diff', [coord(i)], {}, None)
                    P = m.call(m.module_name(W.prog.module('dop'), 'Pdop'), [coord(i)], {}, None)
                    return m.call(P, [X], {}, None)
                if how == 'base representation' and (H.ortho or nm != 'field'):
                    continue
                A.check('field', 'derivative of a %s along %s (%s)' % (nm, H.coords[i], how), entry, A.mv, geo.D(i, d), wh('pDiff'))
    if not flat:
        for w in cl.subsets:
            for i in R:
                for key in ('index', 'symbol'):
                    def entry(m, w=w, i=i, key=key):
                        ga = build(m)
                        return m.call_method(ga, 'blade_derivation', [H.blade(w), Const(i) if key == 'index' else coord(i)], {}, None)
                    A.check('field', 'derivative of blade %s along %s by %s' % (''.join(map(str, w)) or '1', H.coords[i], key), entry, A.mv, geo.dblade(i, w), wh('blade_derivation'))
    if n == 2:
        for orders in ([1, 1], [0, 2], [2, 0], [3, 0], [1, 2]):
            def entry(m, orders=orders):
                ga = build(m)
                return m.call_method(ga, 'pDiff', [field(m, ga, V), Seq('list', [Const(k) for k in orders])], {}, None)
            w = V
            for i in R:
                for _ in range(orders[i]):
                    w = geo.D(i, w)
            if geo.h is None and not H.ortho and not flat and orders != [1, 1] or sum(orders) > 2 and not H.ortho:
                continue
            A.check('field', '%s derivative %s of a vector field' % ('second' if sum(orders) == 2 else 'third', orders), entry, A.mv, w, wh('pDiff'))
    # ---- gradient
    ops = {'*': 'mul', '^': 'wedge', '|': 'hestenes_dot', '<': 'left_contract', '>': 'right_contract'}
    for nm, d in kinds if n == 2 else kinds[:1]:
        for op, name in ops.items():
            want = {}
            wantr = {}
            for i in R:
                want = dadd(want, cl.product(name, geo.gradvec(i), geo.D(i, d)))
                wantr = dadd(wantr, cl.product(name, geo.D(i, d), geo.gradvec(i)))
            for side in ('left', 'right', 'grads'):
                def entry(m, d=d, op=op, side=side):
                    ga = build(m)
                    X = field(m, ga, d)
                    if side == 'left':
                        return op2(m, op, m.getattr(ga, 'grad', None), X)
                    if side == 'right':
                        return op2(m, op, X, m.getattr(ga, 'rgrad', None))
                    g2 = m.call_method(ga, 'grads', [], {}, None)
                    return op2(m, op, X, g2.items[1]) if isinstance(g2, Seq) and len(g2.items) == 2 else g2
                if side == 'grads' and op != '*':
                    continue
                A.check('grad', '%s %s %s' % (('grad', op, nm) if side == 'left' else (nm, op, 'rgrad' if side == 'right' else 'grads()[1]')), entry, A.mv, want if side == 'left' else wantr, wh('_build_grads'))
    if n == 2:
        def entry(m):
            ga = build(m)
            g = m.getattr(ga, 'grad', None)
            return m.binop('^', g, m.binop('*', g, field(m, ga, S), None), None)
        A.check('grad', 'curl of a gradient', entry, A.mv, {}, wh('_build_grads'))
    # ---- history and purity
    for i in R:
        def entry(m, i=i):
            ga = build(m)
            for j in R:
                m.call_method(ga, 'pDiff', [field(m, ga, V if j % 2 else F), coord((j + 1 + i) % n)], {}, None)
            m.binop('|', m.getattr(ga, 'grad', None), field(m, ga, V), None)
            return m.call_method(ga, 'pDiff', [field(m, ga, F), coord(i)], {}, None)
        A.check('history', 'derivative along %s after others' % H.coords[i], entry, A.mv, geo.D(i, F), wh('pDiff'))

    def entry(m):
        ga = build(m)
        X = field(m, ga, F)
        g = m.getattr(ga, 'grad', None)
        r1 = m.binop('*', g, X, None)
        m.call_method(X, 'diff', [coord(0)], {}, None)
        m.binop('*', X, m.getattr(ga, 'rgrad', None), None)
        return Seq('list', [X, m.binop('*', g, X, None), r1])
    want = {}
    for i in R:
        want = dadd(want, cl.product('mul', geo.gradvec(i), geo.D(i, F)))
    A.check('pure', 'a field and its gradient after differentiating it', entry, A.seq(A.mv), [F, want, want], wh('pDiff'))


def op2(m, op, a, b):
    return m.compare_op(op, a, b, None) if op in '<>' else m.binop(op, a, b, None)
