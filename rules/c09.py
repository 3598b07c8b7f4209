"""C09: the algebra of multivector differential operators."""
import itertools
from fractions import Fraction
from sa.vals import *
from sa.vals import V
from sa.interp import Interp, is_notimpl
from sa.gamodel import *
from sa.judge import facts_of, unwrap
from sa.ncpoly import NC, Ctx, cconst
from rules.c04 import X
from rules.dopmodel import *

OPS = {'*': 'gp', '^': 'wedge', '|': 'hd', '<': 'lc', '>': 'rc'}
L = [('l1', ((x, 1),)), ('l2', ((y, 1),)), ('l3', ((x, 2),)), ('l0', ())]
R = [('r1', ((y, 1),)), ('r2', ((x, 1),)), ('r0', ()), ('r3', ((x, 1), (y, 1)))]


def mi(t):
    return tuple(sorted(''.join(NAMES[k.key()] * n for k, n in t)))


def run(ck, W):
    ck.rule('product', 'operator products are compositions: the derivatives of the operator act on everything on their side, coefficients in the written order, and a result that is an operator keeps its direction')
    ck.rule('linear', 'sum, difference, negation and quotient by a scalar act term by term and keep the direction')
    ck.rule('mixed', 'operators of opposite direction are never combined')
    ck.rule('normal', 'consolidating, simplifying, differentiating and splitting an operator into components does not change the operator or its direction')
    ck.rule('equal', 'operators compare equal exactly when the difference of all coefficients is zero')
    g0 = lambda: W.ga('ga')
    s = T('s', typ=EXPR)

    def mvc(n, g):
        return W.mv(n, g)

    def coef(n):
        return T(n + '.obj', typ=EXPR)

    def D(m, g, ts, flg):
        return build(m, W, 'D', [(mvc(n, g), t) for n, t in ts], g, 'Dop', flg)

    def apply(m, op, l, r):
        return m.compare_op(op, l, r, None) if op in '<>' else m.binop(op, l, r, None)

    def judge(rule, subj, traces, spec, flag=None, ctx=None):
        """spec: {multi-index: value} for an operator, a value for a multivector"""
        n = 0
        for t in traces:
            if t.kind == 'raise':
                ck.bad(rule, subj, t.where, 'raises %s' % t.exc, facts_of(t))
                return
            if t.kind != 'return' or is_notimpl(t.value):
                ck.undecided(rule, subj, t.exc or 'NotImplemented')
                return
            N = DNorm(W, t, ctx() if ctx else base_ctx())
            try:
                if isinstance(spec, dict):
                    if is_mv(W, t.value):
                        ck.bad(rule, subj, t.where, 'is a multivector, specified is a differential operator', facts_of(t))
                        return
                    got = read(W, N, t.value)
                    want = {k: N.drop_zero(N.nf(c)) for k, c in spec.items()}
                    want = {k: c for k, c in want.items() if c.t}
                    f = t.value.fields.get('cmpflg')
                    if flag is not None and want and isinstance(f, Const) and bool(f.v) != flag:
                        ck.bad(rule, subj, t.where, 'the operator differentiates to the %s, its operand%s to the %s' % (('left', 's', 'right') if f.v else ('right', 's', 'left')), facts_of(t))
                        return
                    if flag is not None and not isinstance(f, Const):
                        ck.undecided(rule, subj, 'direction %s' % short(f))
                        return
                else:
                    if isinstance(t.value, Obj) and t.value.cls is W.Dop:
                        ck.bad(rule, subj, t.where, 'is a differential operator, specified is a multivector', facts_of(t))
                        return
                    got, want = {(): N.drop_zero(N.nf(t.value))}, {(): N.drop_zero(N.nf(spec))}
            except Unread as e:
                ck.undecided(rule, subj, str(e))
                return
            if N.unknown:
                ck.undecided(rule, subj, short(N.unknown[0]))
                return
            if got != want:
                ck.bad(rule, subj, t.where, 'computes %s, specified is %s' % (show(got), show(want)), facts_of(t))
                return
            n += 1
        ck.ok(rule, subj, '%d paths, %s' % (n, show(want)[:120])) if n else ck.undecided(rule, subj, 'no path')

    def base_ctx():
        c = Ctx()
        c.central.add(s.key())
        return c
    interp = lambda: ck.use(Interp(W.prog, DopHooks(W)))
    DD = lambda v, t: dd_(v, t)

    def dd_(v, t):
        for k, n in t:
            for _ in range(n):
                v = T('d', v, k, typ=EXPR)
        return v
    thorough = ck.tier == 'thorough'
    # ---- operator and multivector / scalar
    A = coef('A')
    for op, pr in OPS.items():
        for flg in (False, True):
            for side in 'lr':
                for what in ('A', 's', '3'):
                    subj = ('%s %s D' if side == 'l' else 'D %s %s') % ((what, op) if side == 'l' else (op, what))
                    subj += ', D differentiating to the %s' % ('left' if flg else 'right')
                    if side == 'l' and op in '<>' and what != 'A':
                        continue
                    # python reflects s < D to D > s : only a multivector on the left of a comparison is a product
                    if side == 'l' and op in '<>' and what == 'A':
                        pass
                    tm = L if what == 'A' else L[:2] + L[3:]

                    def entry(m):
                        g = g0()
                        Dv = D(m, g, tm, flg)
                        o = {'A': W.mv('A', g), 's': s, '3': Const(3)}[what]
                        return apply(m, op, o, Dv) if side == 'l' else apply(m, op, Dv, o)
                    ov = {'A': A, 's': s, '3': Const(3)}[what]
                    pos = (lambda c, o: X(pr, c, o)) if side == 'r' else (lambda c, o: X(pr, o, c))
                    acts = (side == 'r') != flg      # the operator differentiates the operand
                    if acts:
                        spec = Const(0)
                        for n, t in tm:
                            do = dd_(ov, t) if what != '3' else (ov if not t else Const(0))
                            spec = X('+', spec, pos(coef(n), do))
                        judge('product', subj, interp().run(entry), spec)
                    else:
                        sp = {}
                        for n, t in tm:
                            v = pos(coef(n), ov)
                            sp[mi(t)] = X('+', sp[mi(t)], v) if mi(t) in sp else v
                        judge('product', subj, interp().run(entry), sp, flg)
    # ---- two operators
    for op, pr in OPS.items():
        for fl, fr in itertools.product((False, True), repeat=2):
            cases = [(L[:1], R[:1]), (L[1:3], R[1:2])]
            if op == '*' or thorough:
                cases += [(L[:2], R[:2]), (L[2:4], R[2:4])]
            if fl != fr:
                cases = cases[:1]
            for tl, tr in cases:
                subj = 'D1 %s D2 with %d and %d terms of orders %s and %s, %s' % (op, len(tl), len(tr), [len(mi(t)) for _, t in tl], [len(mi(t)) for _, t in tr],
                                                                               'both to the right' if not fl and not fr else 'both to the left' if fl and fr else 'opposite directions')

                def entry(m):
                    g = g0()
                    return apply(m, op, D(m, g, tl, fl), D(m, g, tr, fr))
                tt = interp().run(entry)
                if fl != fr:
                    rej(ck, 'mixed', subj, tt)
                    continue
                sp = {}

                def put(k, v):
                    sp[k] = X('+', sp[k], v) if k in sp else v
                # composition: Leibniz for the derivatives of the operator acting on the coefficients of the other
                for (cl, pl), (cr, prr) in itertools.product(tl, tr):
                    act, passive = (pl, cr) if not fl else (prr, cl)
                    for sub, rest, mult in splits(act):
                        dc = dd_(coef(passive), sub)
                        v = X(pr, coef(cl), dc) if not fl else X(pr, dc, coef(cr))
                        if mult != 1:
                            v = X('*', Const(mult), v)
                        put(tuple(sorted(mi(rest) + mi(prr if not fl else pl))), v)
                judge('product', subj, tt, sp, fl)
    # ---- linear
    for fl, fr in itertools.product((False, True), repeat=2):
        for op in '+-':
            subj = 'D1 %s D2, %s' % (op, 'both to the right' if not fl and not fr else 'both to the left' if fl and fr else 'opposite directions')

            def entry(m):
                g = g0()
                return m.binop(op, D(m, g, L[:3], fl), D(m, g, R[:2], fr), None)
            tt = interp().run(entry)
            if fl != fr:
                rej(ck, 'mixed', subj, tt)
                continue
            sp = {mi(t): coef(n) for n, t in L[:3]}
            for n, t in R[:2]:
                v = coef(n) if op == '+' else X('neg', coef(n))
                sp[mi(t)] = X('+', sp[mi(t)], v) if mi(t) in sp else v
            judge('linear', subj, tt, sp, fl)
    for flg in (False, True):
        dr = ', D differentiating to the %s' % ('left' if flg else 'right')
        for op in '+-':
            for side in 'lr':
                for what in ('A', 's', '3'):
                    def entry(m):
                        g = g0()
                        o = {'A': W.mv('A', g), 's': s, '3': Const(3)}[what]
                        Dv = D(m, g, L[1:], flg)
                        return m.binop(op, o, Dv, None) if side == 'l' else m.binop(op, Dv, o, None)
                    o = {'A': A, 's': s, '3': Const(3)}[what]
                    sgD = -1 if op == '-' and side == 'l' else 1
                    sgo = -1 if op == '-' and side == 'r' else 1
                    sp = {mi(t): coef(n) if sgD > 0 else X('neg', coef(n)) for n, t in L[1:]}
                    sp[()] = X('+', sp[()], o if sgo > 0 else X('neg', o))
                    judge('linear', ('%s %s D' % (what, op) if side == 'l' else 'D %s %s' % (op, what)) + dr, interp().run(entry), sp, flg)
        sp = {mi(t): X('neg', coef(n)) for n, t in L}
        judge('linear', '-D' + dr, interp().run(lambda m: m.unop('neg', D(m, g0(), L, flg), None)), sp, flg)
        sp = {mi(t): X('/', coef(n), s) for n, t in L}
        judge('linear', 'D / s' + dr, interp().run(lambda m: m.binop('/', D(m, g0(), L, flg), s, None)), sp, flg)
        # ---- normal forms
        dup = L + [('k1', ((x, 1),)), ('k2', ((x, 2),)), ('k3', ())]
        sp = {}
        for n, t in dup:
            sp[mi(t)] = X('+', sp[mi(t)], coef(n)) if mi(t) in sp else coef(n)
        for meth in ('consolidate_coefs', 'simplify', 'TSimplify'):
            if W.Dop.lookup(meth) is None:
                continue
            judge('normal', meth + dr, interp().run(lambda m: m.call_method(D(m, g0(), dup, flg), meth, [], {}, None)), sp, flg)
        for n in (1, 2):
            sp = {}
            for nm_, t in L[:2]:
                for k in range(n + 1):
                    from math import comb
                    v = dd_(coef(nm_), ((x, n - k),))
                    if comb(n, k) != 1:
                        v = X('*', Const(comb(n, k)), v)
                    key = tuple(sorted(mi(t) + ('x',) * k))
                    sp[key] = X('+', sp[key], v) if key in sp else v
            judge('normal', 'derivative of order %d%s' % (n, dr), interp().run(lambda m: m.call_method(D(m, g0(), L[:2], flg), '_eval_derivative_n_times', [x, Const(n)], {}, None)), sp, flg)
    components(ck, W, judge, interp, base_ctx)
    equality(ck, W, D, g0)
    return ck.finish('Operators with coefficients that are arbitrary multivectors and multi-indices of order up to two; every operation is interpreted and the '
                     'coefficient of every multi-index of its value compared with that of the composition (Leibniz rule, free products).', min_decided=3)


def rej(ck, rule, subj, traces):
    for t in traces:
        if t.kind == 'return' and not is_notimpl(t.value):
            ck.bad(rule, subj, t.where, 'returns %s' % short(t.value), facts_of(t))
            return
        if t.kind not in ('return', 'raise'):
            ck.undecided(rule, subj, t.exc)
            return
    ck.ok(rule, subj, 'rejected')


def splits(t):
    """all ways to split the derivatives of a multi-index between two factors: (on the first, on the second, multiplicity)"""
    from math import comb
    ks = [k for k, n in t]
    for choice in itertools.product(*[range(n + 1) for k, n in t]):
        m = 1
        for (k, n), c in zip(t, choice):
            m *= comb(n, c)
        yield tuple((k, c) for k, c in zip(ks, choice) if c), tuple((k, n - c) for (k, n), c in zip(t, choice) if n - c), m


def components(ck, W, judge, interp, base_ctx):
    """the sum of the components is the operator"""
    names = {}

    def expand(v):
        k = v.key() if isinstance(v, V) else None
        for n, e in EXP.items():
            if T(n + '.obj', typ=EXPR).key() == k:
                return e
        return None
    e1, e2 = T('e1', typ=EXPR), T('e2', typ=EXPR)
    f = lambda n: T(n, typ=EXPR)
    one = Const(1, True)
    EXP = {'p': [(f('p0'), one), (f('p1'), e1), (f('p2'), e2)], 'q': [(f('q1'), e1)], 'r': [(f('r2'), e2), (f('r0'), one)], 's0': [(f('s00'), one)], 's1': [(f('s10'), one)], 'q2': [(f('q21'), e1)]}
    all_terms = [[('p', ((x, 1),)), ('q', ((y, 1),)), ('r', ((x, 1), (y, 1))), ('s0', ())],
                 [('s0', ()), ('q', ((y, 1),)), ('q2', ((x, 1),))], [('q', ((y, 1),)), ('s0', ((x, 1),)), ('s1', ())]]

    class CH(DopHooks):
        def call(self, m, fn, args, kw, node):
            q = self.qual(fn)
            if q == 'Mv.is_scalar' and isinstance(fn, Bound) and isinstance(fn.self_, Obj) and fn.self_.name in EXP:
                return Const(fn.self_.name in ('s0', 's1'))
            return super().call(m, fn, args, kw, node)

        def distinct(self, m, l, r):
            ks = {e1.key(), e2.key(), one.key(), Const(1).key()}
            if l.key() in ks and r.key() in ks:
                return True
            return super().distinct(m, l, r)

    def ctx():
        c = Ctx()
        for e in EXP.values():
            for co, _ in e:
                c.central.add(co.key())
        for n, e in EXP.items():
            tot = NC()
            from sa.ncpoly import Norm
            N = Norm(c)
            for co, b in e:
                tot = tot + N.gp(N.nf(co), N.nf(b))
            c.subst[T(n + '.obj', typ=EXPR).key()] = tot
        return c

    for flg in (False, True):
        dr = ', D differentiating to the %s' % ('left' if flg else 'right')
        for meth, terms in itertools.product(('components', 'Dop_mv_expand'), all_terms):
            if W.Dop.lookup(meth) is None:
                continue
            H = CH(W)
            H.expand = expand
            H.nctx = ctx
            I = ck.use(Interp(W.prog, H))

            def entry(m):
                g = W.ga('ga')
                g.fields['blades'] = Obj('blades', 'Blades', fields={'flat': Seq('tuple', [one, e1, e2])})
                Dv = build(m, W, 'D', [(W.mv(n, g), t) for n, t in terms], g, 'Dop', flg)
                return m.call_method(Dv, meth, [], {}, None)
            sp = {}
            for n, t in terms:
                sp[mi(t)] = T(n + '.obj', typ=EXPR)
            judge_sum(ck, W, 'normal', 'the sum of %s of %s%s' % (meth, '+'.join(n for n, _ in terms), dr), I.run(entry), sp, flg, ctx, meth)


def judge_sum(ck, W, rule, subj, traces, spec, flag, ctx, meth):
    n = 0
    for t in traces:
        if t.kind != 'return':
            (ck.bad(rule, subj, t.where, 'raises %s' % t.exc, facts_of(t)) if t.kind == 'raise' else ck.undecided(rule, subj, t.exc))
            return
        N = DNorm(W, t, ctx())
        v = t.value
        if not isinstance(v, Seq) or any(isinstance(i, Each) for i in v.items):
            ck.undecided(rule, subj, short(v))
            return
        got = {}
        try:
            for it in v.items:
                if meth == 'components':
                    f = it.fields.get('cmpflg') if isinstance(it, Obj) else None
                    if isinstance(f, Const) and bool(f.v) != flag:
                        ck.bad(rule, subj, t.where, 'a component differentiates to the other side than the operator', facts_of(t))
                        return
                    part = read(W, N, it)
                else:
                    sd, base = it.items
                    b = N.nf(base)
                    part = {k: N.gp(c, b) for k, c in read(W, N, sd).items()}
                for k, c in part.items():
                    got[k] = got.get(k, NC()) + c
        except Unread as e:
            ck.undecided(rule, subj, str(e))
            return
        got = {k: N.drop_zero(c) for k, c in got.items() if N.drop_zero(c).t}
        want = {k: N.drop_zero(N.nf(c)) for k, c in spec.items()}
        want = {k: c for k, c in want.items() if c.t}
        if N.unknown:
            ck.undecided(rule, subj, short(N.unknown[0]))
            return
        if got != want:
            ck.bad(rule, subj, t.where, 'is %s, the operator is %s' % (show(got), show(want)), facts_of(t))
            return
        n += 1
    ck.ok(rule, subj, '%d paths' % n) if n else ck.undecided(rule, subj, 'no path')


def equality(ck, W, D, g0):
    """D1 == D2 for operators with equal and different terms"""
    for subj, a, b, fa, fb in (('one operator', L, L, False, False), ('reordered terms', L, L[::-1], False, False), ('one term more', L, L[:-1], False, False),
                               ('one term less', L[:-1], L, False, False), ('other derivative', L[:1], [('l1', ((y, 1),))], False, False),
                               ('other coefficient', L[:1], [('r1', ((x, 1),))], False, False)):
        I = ck.use(Interp(W.prog, DopHooks(W)))

        def entry(m):
            g = g0()
            return m.compare_op('==', D(m, g, a, fa), D(m, g, b, fb), None)
        for t in I.run(entry):
            sj = '%s, path' % subj
            if t.kind != 'return' or not isinstance(t.value, Const):
                (ck.bad if t.kind == 'raise' else lambda *z: ck.undecided('equal', sj, t.exc or short(t.value)))('equal', sj, t.where, 'raises %s' % t.exc)
                continue
            N0 = DNorm(W, NoFacts, Ctx())
            A = {mi(tt): N0.nf(T(n + '.obj', typ=EXPR)) for n, tt in a}
            B = {mi(tt): N0.nf(T(n + '.obj', typ=EXPR)) for n, tt in b}
            diffs = [A.get(k, NC()) - B.get(k, NC()) for k in set(A) | set(B)]
            same = all(not q.t for q in diffs)
            if t.value.v is True and not same:
                ck.bad('equal', sj, t.where, 'operators with different coefficients compare equal', facts_of(t))
            elif t.value.v is False and all(not q.t for q in diffs):
                ck.bad('equal', sj, t.where, 'equal operators compare unequal', facts_of(t))
            else:
                ck.ok('equal', sj, repr(t.value.v))

