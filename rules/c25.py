"""C25: multilinear transformations (Mlt)."""
from itertools import product as iproduct
from rules.concrule import *


class FnConc(Conc):
    """functions given by the analysis are callables whose parameters are known"""

    def ext(self, m, name, args, kw, node):
        if name in ('inspect.getfullargspec', 'inspect.getargspec') and args and isinstance(args[0], Prim) and args[0].name.endswith(')'):
            ps = Seq('list', [Const(p) for p in args[0].name.split('(')[1][:-1].split(',')])
            return Seq('tuple', [ps, NONE, NONE, NONE, Seq('list', []), NONE, Dct([])])
        return super().ext(m, name, args, kw, node)


def fn(params, f):
    return Prim('T(%s)' % ','.join(params), f)


def T_unknown(args):
    return T('tensorfn', *[a for a in args if isinstance(a, (T, Const, Obj))])


def run(ck, W):
    ck.rule('construct', 'a tensor built from a name, a vector, a linear transformation, a function or a component expression is the multilinear map its argument describes')
    ck.rule('algebra', 'sums, differences, scalar multiples and products of tensors are the pointwise ones, with the arguments of the second factor following those of the first')
    ck.rule('derivative', 'slot derivative, contraction, directional and covariant derivative satisfy their defining formulas')
    ck.rule('history', 'the same holds whatever tensors were built in the algebra before')
    ck.rule('reject', 'tensors with different numbers of slots cannot be added, and a component expression needs its number of slots')
    ck.rule('pure', 'using a tensor changes neither it nor the state of the algebra')
    for n, g, nm in ((2, gatoms(2, False), 'general metric, n=2'), (3, gatoms(3, True), 'orthogonal metric, n=3')):
        one(ck, W, n, g, nm)
    return ck.finish('Abstract interpretation of the tensor class over a whole algebra with uninterpreted metric and coefficients; the values at generic vectors '
                     'are rational functions in these atoms, where equality is decidable, and are compared with the multilinear map defined by the components.', min_decided=3)


def one(ck, W, n, g, nm):
    A = Alg(ck, W, n, g, [('x', 'y', 'z')[i] for i in range(n)], nm, H=FnConc)
    H = A.H
    cl = H.cl
    R = range(n)
    ginv = minverse(g)
    lmod = W.prog.module('lt')

    def newga(m):
        ga = H.ga()
        m.call_method(ga, '_build_grads', [], {}, None)
        return ga
    Mlt = lambda m: m.module_name(lmod, 'Mlt')
    where_ = lambda name: where(W, W.Mlt, name)
    vecs = [H.general('uvwpq'[k], (1,)) for k in range(5)]
    comp = lambda d: [d.get((i,), {}) for i in R]
    V = [comp(v) for v in vecs]
    T2 = [[H.sym('t%d%d' % (i, j)) for j in R] for i in R]
    T1 = [H.sym('s%d' % i) for i in R]
    U2 = [[H.sym('q%d%d' % (i, j)) for j in R] for i in R]

    def ev(C, r, vs):
        """Sum C[i1..ir] v1^i1 ... vr^ir"""
        s = {}
        for ix in iproduct(R, repeat=r):
            c = C(*ix)
            for k, i in enumerate(ix):
                c = cmul(c, vs[k][i])
            s = cadd(s, c)
        return s
    c2 = lambda i, j: T2[i][j]
    c1 = lambda i: T1[i]
    u2 = lambda i, j: U2[i][j]

    def mlt(m, ga, f, nargs=None, **kw):
        a = [f, ga] + ([Const(nargs)] if nargs is not None else [])
        return m.call(Mlt(m), a, {k: v for k, v in kw.items()}, None)

    def at(m, ga, T, vs):
        return m.call(T, [H.mvobj(ga, v, 'v') for v in vs], {}, None)

    def scalar_fn(m, ga, C, r):
        """a function of r vectors with components C"""
        def f(mm, args, kw, node):
            if any(H.lin(a) is None for a in args):
                return T_unknown(args)
            vs = [comp(H.lin(a)) for a in args]
            return H.mvobj(ga, {(): ev(C, r, vs)} if ev(C, r, vs) else {}, 'T')
        return fn(['a1', 'a2', 'a3'][:r], f)

    def expr(m, ga, C, r):
        """component expression: the slots are allocated first"""
        m.call(m.getattr(Mlt(m), 'increment_slots', None), [Const(r), ga], {}, None)
        sl = ga.fields['_mlt_pdiffs'].items
        v = H.cval(ev(C, r, [[H.coef(x) for x in s.items] for s in sl[:r]]))
        return mlt(m, ga, v, r)

    def vec(m, ga):
        return mlt(m, ga, H.mvobj(ga, {(i,): T1[i] for i in R}, 'f'))

    def lt(m, ga):
        F = m.call(m.getattr(ga, 'lt', None), [H.matrix(T2)], {}, None)
        return mlt(m, ga, F)
    gT2 = lambda i, j: _sum([cmul(g[i][k], T2[k][j]) for k in R])
    gT1 = lambda i: _sum([cmul(g[i][k], T1[k]) for k in R])

    # number of tensors built before: none, one of three slots, one of one slot followed by a named one
    def hist(m, ga, h):
        if h == 1:
            expr(m, ga, lambda i, j, k: H.sym('h%d%d%d' % (i, j, k)), 3)
        elif h == 2:
            mlt(m, ga, Const('H'), 1)
            F = mlt(m, ga, Const('K'), 2)
            m.binop('*', F, mlt(m, ga, Const('H'), 1), None)
    hn = ['', ' after a tensor of three slots', ' after tensors of other ranks']
    for h in range(3):
        rule = 'history' if h else 'construct'
        for subj, mk, C, r in (('a component expression of rank 2', lambda m, ga: expr(m, ga, c2, 2), c2, 2),
                               ('a component expression of rank 1', lambda m, ga: expr(m, ga, c1, 1), c1, 1),
                               ('a vector', vec, gT1, 1), ('a linear transformation', lt, gT2, 2),
                               ('a function of two vectors', lambda m, ga: mlt(m, ga, scalar_fn(m, ga, c2, 2)), c2, 2)):
            def entry(m, mk=mk, r=r, h=h):
                ga = newga(m)
                hist(m, ga, h)
                return at(m, ga, mk(m, ga), vecs[:r])
            A.check(rule, 'value of a tensor built from %s%s' % (subj, hn[h]), entry, A.scal, ev(C, r, V), where_('__init__'))

            def entry(m, mk=mk, r=r, h=h):
                ga = newga(m)
                hist(m, ga, h)
                return m.getattr(mk(m, ga), 'nargs', None)
            A.check(rule, 'number of slots of a tensor built from %s%s' % (subj, hn[h]), entry, A.const, r, where_('__init__'))
        for fct in (False, True):
            def entry(m, h=h, fct=fct):
                ga = newga(m)
                hist(m, ga, h)
                T = mlt(m, ga, Const('T'), 2, **({'fct': TRUE} if fct else {}))
                return Seq('list', [at(m, ga, T, [{(i,): cconst(1)}, {(j,): cconst(1)}]) for i in R for j in R] + [at(m, ga, T, vecs[:2])])

            def own_(c, fct=fct):
                return [x for x in sorted(H.cats(c), key=repr) if x[0] == ('f' if fct else 'a')]

            def rd(v, fct=fct):
                it = A.seq(A.scal)(v)
                names = [[q for x in own_(c) for q in str(x[1]) if q in H.coords] for c in it[:-1]]

                idx = [[H.coords[i], H.coords[j]] for i in R for j in R]
                t = it[:-1]
                own = [[x for x in sorted(H.cats(c), key=repr) if x[0] == ('f' if fct else 'a') and ceq(c, {((x, 1),): Fraction(1)})] for c in t]
                return [len({repr(o) for o in own}), all(len(o) == 1 for o in own), names == idx or names, clear(cadd(it[-1], ev(lambda i, j: t[i * n + j], 2, V), -1))]
            A.check(rule, 'a tensor%s built from a name is the general one of its rank%s' % (' field' if fct else '', hn[h]), entry, rd, [n * n, True, True, {}], where_('__init__'))
    # ---- algebra
    for h in (0, 1):
        E2 = lambda m, ga: expr(m, ga, c2, 2)
        F2 = lambda m, ga: expr(m, ga, u2, 2)
        E1 = lambda m, ga: expr(m, ga, c1, 1)
        FN = lambda m, ga: mlt(m, ga, scalar_fn(m, ga, u2, 2))
        k = H.sym('k')
        cases = [('T + S', lambda m, ga: m.binop('+', E2(m, ga), F2(m, ga), None), 2, cadd(ev(c2, 2, V), ev(u2, 2, V)), '__add__'),
                 ('T - S', lambda m, ga: m.binop('-', E2(m, ga), F2(m, ga), None), 2, cadd(ev(c2, 2, V), ev(u2, 2, V), -1), '__sub__'),
                 ('T * k', lambda m, ga: m.binop('*', E2(m, ga), H.cval(k), None), 2, cmul(ev(c2, 2, V), k), '__mul__'),
                 ('T * 2', lambda m, ga: m.binop('*', E2(m, ga), Const(2), None), 2, cmul(ev(c2, 2, V), cconst(2)), '__mul__'),
                 ('T + function', lambda m, ga: m.binop('+', E2(m, ga), FN(m, ga), None), 2, cadd(ev(c2, 2, V), ev(u2, 2, V)), '__add__'),
                 ('T - linear transformation', lambda m, ga: m.binop('-', F2(m, ga), lt(m, ga), None), 2, cadd(ev(u2, 2, V), ev(gT2, 2, V), -1), '__sub__')]
        for op, nm2 in (('*', '__mul__'), ('^', '__xor__')):
            cases += [('rank 2 %s rank 1' % op, lambda m, ga, op=op: m.binop(op, E2(m, ga), E1(m, ga), None), 3, cmul(ev(c2, 2, V), ev(c1, 1, V[2:])), nm2),
                      ('rank 1 %s rank 2' % op, lambda m, ga, op=op: m.binop(op, E1(m, ga), E2(m, ga), None), 3, cmul(ev(c1, 1, V), ev(c2, 2, V[1:])), nm2)] if op == '*' else []
        cases += [('linear transformation * vector', lambda m, ga: m.binop('*', lt(m, ga), vec(m, ga), None), 3, cmul(ev(gT2, 2, V), ev(gT1, 1, V[2:])), '__mul__'),
                  ('function * rank 1', lambda m, ga: m.binop('*', FN(m, ga), E1(m, ga), None), 3, cmul(ev(u2, 2, V), ev(c1, 1, V[2:])), '__mul__')]
        for subj, mk, r, want, nm2 in cases:
            def entry(m, mk=mk, r=r, h=h):
                ga = newga(m)
                hist(m, ga, h)
                T = mk(m, ga)
                return Seq('list', [at(m, ga, T, vecs[:r]), m.getattr(T, 'nargs', None)])
            A.check('history' if h else 'algebra', subj + hn[h], entry, lambda v: [A.scal(v.items[0]), A.const(v.items[1])], [want, r], where_(nm2))

    # vector valued functions
    M1 = [[H.sym('p%d%d' % (i, j)) for j in R] for i in R]
    M2 = [[H.sym('r%d%d' % (i, j)) for j in R] for i in R]
    app = lambda M, v: {(i,): _sum([cmul(M[i][j], v[j]) for j in R]) for i in R}

    def vfn(m, ga, M):
        def f(mm, args, kw, node):
            if any(H.lin(a) is None for a in args):
                return T_unknown(args)
            return H.mvobj(ga, app(M, comp(H.lin(args[0]))), 'F')
        return mlt(m, ga, fn(['a1'], f))
    for op, nm2 in (('*', '__mul__'), ('^', '__xor__'), ('|', '__or__')):
        def entry(m, op=op):
            ga = newga(m)
            return at(m, ga, m.binop(op, vfn(m, ga, M1), vfn(m, ga, M2), None), vecs[:2])
        A.check('algebra', 'vector valued F %s G' % op, entry, A.mv, cl.product({'*': 'mul', '^': 'wedge', '|': 'hestenes_dot'}[op], app(M1, V[0]), app(M2, V[1])), where_(nm2))
    for nv in (1, 2):
        def entry(m, nv=nv):
            ga = newga(m)
            F = expr(m, ga, c2, 2)
            sub = m.call(m.getattr(Mlt(m), 'subs', None), [ga, Seq('list', [H.mvobj(ga, v, 'v') for v in vecs[:nv]])], {}, None)
            return Seq('list', [m.call_method(m.call_method(F, '__call__', [], {}, None), 'subs', [sub], {}, None), Seq('list', [x for s in ga.fields['_mlt_pdiffs'].items[nv:2] for x in s.items])])

        def rd(v, nv=nv):
            rest = [A.scal(x) for x in v.items[1].items]
            return clear(cadd(A.scal(v.items[0]), ev(c2, 2, (V[:nv] + ([rest] if rest else []))), -1))
        A.check('construct', 'substitution list for %d slots' % nv, entry, rd, {}, where_('subs'))

    def entry(m):
        ga = newga(m)
        return m.binop('+', expr(m, ga, c2, 2), expr(m, ga, c1, 1), None)

    def ctl(m):
        ga = newga(m)
        return m.binop('+', expr(m, ga, c2, 2), expr(m, ga, u2, 2), None)
    A.rejects('reject', 'sum of tensors of different ranks', entry, ctl)

    def entry(m):
        ga = newga(m)
        return m.binop('-', expr(m, ga, c2, 2), expr(m, ga, c1, 1), None)
    A.rejects('reject', 'difference of tensors of different ranks', entry, ctl)

    def entry(m):
        ga = newga(m)
        return mlt(m, ga, H.cval(H.sym('k')))
    A.rejects('reject', 'a component expression without number of slots', entry, ctl)
    # ---- derivatives
    T3 = {ix: H.sym('t%d%d%d' % ix) for ix in iproduct(R, repeat=3)}
    c3 = lambda i, j, k: T3[(i, j, k)]
    slots = lambda ga, r: [[H.coef(x) for x in s.items] for s in ga.fields['_mlt_pdiffs'].items[:r]]
    for h in (0, 1):
        rule = 'history' if h else 'derivative'
        for C, r in ((c1, 1), (c2, 2)):
            for slot in range(1, r + 1):
                def entry(m, C=C, r=r, slot=slot, h=h):
                    ga = newga(m)
                    hist(m, ga, h)
                    T = expr(m, ga, C, r)
                    return Seq('tuple', [m.call_method(T, 'pdiff', [Const(slot)], {}, None), ga])

                def rd(v, C=C, r=r, slot=slot):
                    d = A.mv(v.items[0])
                    sl = slots(v.items[1], r)
                    # Sum_i e^i T(.., e_i, ..), e^i = g^ij e_j
                    want = {}
                    for i in R:
                        vs = [list(x) for x in sl]
                        vs[slot - 1] = [cconst(1) if a == i else {} for a in R]
                        t = ev(C, r, vs)
                        want = dadd(want, {(j,): cmul(ginv[i][j], t) for j in R if cmul(ginv[i][j], t)})
                    return deq(d, want)
                A.check(rule, 'derivative of a rank %d tensor with respect to slot %d%s' % (r, slot, hn[h]), entry, rd, True, where_('pdiff'))

        def entry(m, h=h):
            ga = newga(m)
            hist(m, ga, h)
            return m.call_method(m.call_method(expr(m, ga, c2, 2), 'contract', [Const(1), Const(2)], {}, None), '__call__', [], {}, None)
        tr = _sum([cmul(ginv[i][j], T2[i][j]) for i in R for j in R])
        A.check(rule, 'contraction of a rank 2 tensor' + hn[h], entry, A.scal, tr, where_('contract'))

        def entry(m, h=h):
            ga = newga(m)
            hist(m, ga, h)
            return m.call_method(m.call_method(lt(m, ga), 'contract', [Const(1), Const(2)], {}, None), '__call__', [], {}, None)
        A.check(rule, 'contraction of the tensor of a linear transformation is its trace' + hn[h], entry, A.scal, _sum([T2[i][i] for i in R]), where_('contract'))
        for s1, s2 in ((1, 2), (2, 3), (1, 3), (3, 1), (2, 1), (3, 2)) if n == 2 else ((1, 2), (2, 3), (3, 1)):
            def entry(m, s1=s1, s2=s2, h=h):
                ga = newga(m)
                hist(m, ga, h)
                T = m.call_method(expr(m, ga, c3, 3), 'contract', [Const(s1), Const(s2)], {}, None)
                return Seq('list', [at(m, ga, T, vecs[:1]), m.getattr(T, 'nargs', None)])
            o = ({1, 2, 3} - {s1, s2}).pop()
            want = {}
            for i in R:
                for j in R:
                    for k in R:
                        ix = {s1: i, s2: j, o: k}
                        want = cadd(want, cmul(cmul(ginv[i][j], T3[(ix[1], ix[2], ix[3])]), V[0][k]))
            A.check(rule, 'contraction of slots %d and %d of a rank 3 tensor%s' % (s1, s2, hn[h]), entry, lambda v: [A.scal(v.items[0]), A.const(v.items[1])], [want, 1], where_('contract'))
        # derivatives of tensor fields in flat space
        f2 = [[H.fn('F%d%d' % (i, j)) for j in R] for i in R]
        xs = [('a', c) for c in H.coords]
        for name in ('dd', 'cderiv'):
            for C, r in ((lambda i, j: f2[i][j], 2), (lambda i: f2[i][0], 1)):
                def entry(m, name=name, C=C, r=r, h=h):
                    ga = newga(m)
                    hist(m, ga, h)
                    T = m.call_method(expr(m, ga, C, r), name, [], {}, None)
                    return Seq('list', [at(m, ga, T, vecs[:r + 1]), m.getattr(T, 'nargs', None)])
                want = _sum([cmul(V[r][k], cdiff(ev(C, r, V), xs[k])) for k in R])
                A.check(rule, '%s of a rank %d tensor field for a constant metric%s' % ('directional derivative' if name == 'dd' else 'covariant derivative', r, hn[h]), entry,
                        lambda v: [A.scal(v.items[0]), A.const(v.items[1])], [want, r + 1], where_(name))
    # ---- no side effects
    C1 = lambda m, ga: expr(m, ga, c1, 1)
    uses = {'a call': lambda m, T, ga: at(m, ga, T, vecs[:2]), 'pdiff': lambda m, T, ga: m.call_method(T, 'pdiff', [Const(1)], {}, None),
            'contract': lambda m, T, ga: m.call_method(T, 'contract', [Const(1), Const(2)], {}, None), 'dd': lambda m, T, ga: m.call_method(T, 'dd', [], {}, None),
            'cderiv': lambda m, T, ga: m.call_method(T, 'cderiv', [], {}, None), '+': lambda m, T, ga: m.binop('+', T, expr(m, ga, u2, 2), None),
            'right -': lambda m, T, ga: m.binop('-', expr(m, ga, u2, 2), T, None), '*': lambda m, T, ga: m.binop('*', T, C1(m, ga), None),
            'right *': lambda m, T, ga: m.binop('*', C1(m, ga), T, None), '* scalar': lambda m, T, ga: m.binop('*', T, H.cval(H.sym('k')), None)}
    for u, f in uses.items():
        def entry(m, f=f):
            ga = newga(m)
            T = expr(m, ga, c2, 2)
            ga.fields['connect_flg'] = Const('c')
            f(m, T, ga)
            st = Seq('list', [m.getattr(ga, 'connect_flg', None), m.getattr(ga, 'dslot', None)])
            ga.fields['connect_flg'] = FALSE
            return Seq('list', [at(m, ga, T, vecs[:2]), m.getattr(T, 'nargs', None), st])
        A.check('pure', 'a tensor and its algebra after %s' % u, entry, lambda v: [A.scal(v.items[0]), A.const(v.items[1]), A.seq(A.const)(v.items[2])], [ev(c2, 2, V), 2, ['c', -1]], where_('__call__'))


def _sum(xs):
    r = {}
    for x in xs:
        r = cadd(r, x)
    return r
