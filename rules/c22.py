"""C22: scalar differential operators (Sdop, Pdop)."""
import itertools
from fractions import Fraction
from math import comb
from sa.vals import *
from sa.vals import V
from sa.interp import Interp, is_notimpl
from sa.gamodel import *
from sa.judge import facts_of, unwrap
from sa.ncpoly import NC, Ctx, cconst
from rules.c04 import X
from rules.c09 import mi, splits, rej
from rules.dopmodel import *

L = [('l1', ((x, 1),)), ('l2', ((y, 1),)), ('l3', ((x, 2),)), ('l0', ())]
R = [('r1', ((y, 1),)), ('r2', ((x, 1),)), ('r0', ()), ('r3', ((x, 1), (y, 1)))]
PS = [((x, 1),), ((x, 2),), ((x, 1), (y, 1)), ((y, 2), (x, 1)), ()]


def E(n):
    return T(n, typ=EXPR)


def ctx():
    c = Ctx()
    for n, _ in L + R + [('k1', 0), ('k2', 0), ('k3', 0), ('f', 0), ('s', 0)]:
        c.central.add(E(n).key())
    return c


def dd(v, t):
    for k, n in t:
        for _ in range(n):
            v = T('d', v, k, typ=EXPR)
    return v


class SH(DopHooks):
    nctx = staticmethod(ctx)


class SNorm(DNorm):
    def atom(self, v, name=None):
        return super().atom(v, name)

    def diff(self, n, s):
        return super().diff(n, s)


def run(ck, W):
    ck.rule('apply', 'an operator applied to an expression or multivector is the sum of its coefficients times the partial derivatives')
    ck.rule('product', 'the product of two operators is their composition (Leibniz rule); a scalar factor from the left multiplies the coefficients')
    ck.rule('linear', 'sum, difference and negation act term by term; a scalar is the operator of order zero')
    ck.rule('normal', 'consolidating, simplifying and differentiating an operator does not change it; the order is the number of derivatives')
    ck.rule('equal', 'operators compare equal exactly when they have the same coefficients and derivatives')
    interp = lambda: ck.use(Interp(W.prog, SH(W)))
    S = lambda m, ts: build(m, W, 'S', [(E(n), t) for n, t in ts], cls='Sdop')
    P = lambda m, t: m.call(Cls(W.Pdop), [Dct([(k, Const(n)) for k, n in t])], {}, None)

    def judge(rule, subj, traces, spec):
        n = 0
        for t in traces:
            if t.kind == 'raise':
                ck.bad(rule, subj, t.where, 'raises %s' % t.exc, facts_of(t))
                return
            if t.kind != 'return' or is_notimpl(t.value):
                ck.undecided(rule, subj, t.exc or 'NotImplemented')
                return
            N = SNorm(W, t, ctx())
            try:
                if isinstance(spec, dict):
                    if isinstance(t.value, Obj) and 'pdiffs' in t.value.fields:
                        got = {mindex(W, None, t.value): NC.scal(cconst(1))}
                    elif isinstance(t.value, (T, Const)):
                        got = {('value',): N.nf(t.value)}
                    else:
                        got = read(W, N, t.value)
                    want = {k: N.drop_zero(N.nf(c)) for k, c in spec.items()}
                    want = {k: c for k, c in want.items() if c.t}
                else:
                    if isinstance(t.value, Obj) and ('terms' in t.value.fields or 'pdiffs' in t.value.fields):
                        ck.bad(rule, subj, t.where, 'is an operator, specified is an expression', facts_of(t))
                        return
                    got, want = {(): N.nf(t.value)}, {(): N.nf(spec)}
            except Unread as e:
                ck.undecided(rule, subj, str(e))
                return
            if N.unknown:
                ck.undecided(rule, subj, short(N.unknown[0]))
                return
            if got != want:
                ck.bad(rule, subj, t.where, 'computes %s, specified is %s' % (show(got), show(want)), facts_of(t))
                return
            n += 1
        ck.ok(rule, subj, '%d paths, %s' % (n, show(want)[:120])) if n else ck.undecided(rule, subj, 'no path')

    f, s = E('f'), E('s')
    A = T('A.obj', typ=EXPR)
    # ---- application
    for what in ('f', 'A'):
        o = lambda: f if what == 'f' else W.mv('A', W.ga('ga'))
        ov = f if what == 'f' else A
        for t in PS:
            for how in ('call', '*'):
                judge('apply', 'Pdop of order %d applied to %s (%s)' % (len(mi(t)), what, how),
                      interp().run(lambda m: m.call_method(P(m, t), '__call__', [o()], {}, None) if how == 'call' else m.binop('*', P(m, t), o(), None)), dd(ov, t))
        for ts in (L, L[:1], []):
            for how in ('call', '*'):
                spec = Const(0)
                for n, t in ts:
                    spec = X('+', spec, X('*', E(n), dd(ov, t)))
                judge('apply', 'Sdop of %d terms applied to %s (%s)' % (len(ts), what, how),
                      interp().run(lambda m: m.call_method(S(m, ts), '__call__', [o()], {}, None) if how == 'call' else m.binop('*', S(m, ts), o(), None)), spec)
    judge('apply', 'Pdop of a number', interp().run(lambda m: m.call_method(P(m, ((x, 1),)), '__call__', [Const(3)], {}, None)), Const(0))
    # ---- products
    for tl, tr in ((L[:1], R[:1]), (L[:2], R[:2]), (L[2:4], R[2:4]), (L, R[1:3])):
        sp = {}
        for (cl, pl), (cr, pr) in itertools.product(tl, tr):
            for sub, rest, mult in splits(pl):
                v = X('*', E(cl), dd(E(cr), sub))
                if mult != 1:
                    v = X('*', Const(mult), v)
                k = tuple(sorted(mi(rest) + mi(pr)))
                sp[k] = X('+', sp[k], v) if k in sp else v
        judge('product', 'S1 * S2 with orders %s and %s' % ([len(mi(t)) for _, t in tl], [len(mi(t)) for _, t in tr]), interp().run(lambda m: m.binop('*', S(m, tl), S(m, tr), None)), sp)
    for t in PS[:4]:
        for n, tr in R[:2]:
            sp = {}
            for sub, rest, mult in splits(t):
                v = dd(E(n), sub)
                if mult != 1:
                    v = X('*', Const(mult), v)
                k = tuple(sorted(mi(rest) + mi(tr)))
                sp[k] = X('+', sp[k], v) if k in sp else v
            judge('product', 'Pdop %s * Sdop %s' % (''.join(mi(t)), ''.join(mi(tr))), interp().run(lambda m: m.binop('*', P(m, t), S(m, [(n, tr)]), None)), sp)
        for t2 in PS:
            judge('product', 'Pdop %s * Pdop %s' % (''.join(mi(t)), ''.join(mi(t2))), interp().run(lambda m: m.binop('*', P(m, t), P(m, t2), None)), {tuple(sorted(mi(t) + mi(t2))): Const(1)})
    for what, o in (('s', s), ('3', Const(3))):
        judge('product', '%s * Sdop' % what, interp().run(lambda m: m.binop('*', o, S(m, L), None)), {mi(t): X('*', o, E(n)) for n, t in L})
        judge('product', '%s * Pdop' % what, interp().run(lambda m: m.binop('*', o, P(m, PS[2]), None)), {mi(PS[2]): o})
    # ---- linear
    for op in '+-':
        sp = {mi(t): E(n) for n, t in L[:3]}
        for n, t in R[:2]:
            v = E(n) if op == '+' else X('neg', E(n))
            sp[mi(t)] = X('+', sp[mi(t)], v) if mi(t) in sp else v
        judge('linear', 'S1 %s S2' % op, interp().run(lambda m: m.binop(op, S(m, L[:3]), S(m, R[:2]), None)), sp)
        for what, o in (('s', s), ('3', Const(3))):
            for side in 'lr':
                sg = -1 if op == '-' and side == 'l' else 1
                so = -1 if op == '-' and side == 'r' else 1
                sp = {mi(t): E(n) if sg > 0 else X('neg', E(n)) for n, t in L[1:]}
                sp[()] = X('+', sp[()], o if so > 0 else X('neg', o))
                judge('linear', ('%s %s S' % (what, op) if side == 'l' else 'S %s %s' % (op, what)),
                      interp().run(lambda m: m.binop(op, o, S(m, L[1:]), None) if side == 'l' else m.binop(op, S(m, L[1:]), o, None)), sp)
        # equal derivatives cancel
        sp = {mi(t): X(op, E(n), E('k1')) if mi(t) == ('x',) else E(n) for n, t in L}
        judge('linear', 'S %s one term' % op, interp().run(lambda m: m.binop(op, S(m, L), S(m, [('k1', ((x, 1),))]), None)), sp)
    judge('linear', 'S - S', interp().run(lambda m: m.binop('-', S(m, L), S(m, L[::-1]), None)), {})
    judge('linear', '-S', interp().run(lambda m: m.unop('neg', S(m, L), None)), {mi(t): X('neg', E(n)) for n, t in L})
    # ---- normal forms
    dup = L + [('k1', ((x, 1),)), ('k2', ((x, 2),)), ('k3', ())]
    sp = {}
    for n, t in dup:
        sp[mi(t)] = X('+', sp[mi(t)], E(n)) if mi(t) in sp else E(n)
    for meth in ('TSimplify', 'simplify', '_with_sorted_terms'):
        if W.Sdop.lookup(meth) is not None:
            judge('normal', meth, interp().run(lambda m: m.call_method(S(m, dup), meth, [], {}, None)), sp)
    if W.Sdop.lookup('consolidate_coefs') is not None:
        I = interp()
        tr = I.run(lambda m: m.call(m.getattr(Cls(W.Sdop), 'consolidate_coefs', None), [S(m, dup)], {}, None))
        judge('normal', 'consolidate_coefs', tr, sp)
        for t in tr:
            if t.kind == 'return' and isinstance(t.value, Obj) and isinstance(t.value.fields.get('terms'), Seq) and not any(isinstance(i, Each) for i in t.value.fields['terms'].items):
                try:
                    ks = [mindex(W, None, i.items[1]) for i in t.value.fields['terms'].items]
                except (Unread, AttributeError):
                    continue
                if len(ks) != len(set(ks)):
                    ck.bad('normal', 'consolidate_coefs merges', t.where, 'two terms with one derivative remain', facts_of(t))
                else:
                    ck.ok('normal', 'consolidate_coefs merges', '%d terms' % len(ks))
    for n in (0, 1, 2, 3):
        sp = {}
        for nm_, t in L[:2]:
            for k in range(n + 1):
                v = dd(E(nm_), ((x, n - k),))
                if comb(n, k) != 1:
                    v = X('*', Const(comb(n, k)), v)
                key = tuple(sorted(mi(t) + ('x',) * k))
                sp[key] = X('+', sp[key], v) if key in sp else v
        judge('normal', 'derivative of order %d of an Sdop' % n, interp().run(lambda m: m.call_method(S(m, L[:2]), '_eval_derivative_n_times', [x, Const(n)], {}, None)), sp)
        for t in PS:
            if n:
                judge('normal', 'derivative of order %d of Pdop %s' % (n, ''.join(mi(t))), interp().run(
                    lambda m: m.call_method(P(m, t), '_eval_derivative_n_times', [x, Const(n)], {}, None)), {tuple(sorted(mi(t) + ('x',) * n)): Const(1)})
    for t in PS:
        for tr in interp().run(lambda m: m.getattr(P(m, t), 'order', None)):
            v = tr.value
            if tr.kind == 'return' and isinstance(v, Const):
                (ck.ok if v.v == len(mi(t)) else lambda a, b, c: ck.bad(a, b, tr.where, c))('normal', 'order of Pdop %s' % ''.join(mi(t)), 'is %s' % v.v)
            else:
                ck.undecided('normal', 'order of Pdop', short(v) if v is not None else tr.exc)
    judge('normal', 'Pdop of a symbol', interp().run(lambda m: m.call(Cls(W.Pdop), [x], {}, None)), {('x',): Const(1)})
    judge('normal', 'Sdop of a symbol', interp().run(lambda m: m.call(Cls(W.Sdop), [x], {}, None)), {('x',): Const(1)})
    judge('normal', 'Sdop of two lists', interp().run(lambda m: m.call(Cls(W.Sdop), [Seq('list', [E('l1'), E('l2')]), Seq('list', [P(m, L[0][1]), P(m, L[1][1])])], {}, None)),
          {mi(t): E(n) for n, t in L[:2]})
    rej(ck, 'normal', 'Sdop of two lists of different length',
        interp().run(lambda m: m.call(Cls(W.Sdop), [Seq('list', [E('l1'), E('l2')]), Seq('list', [P(m, L[0][1])])], {}, None)))
    # derivatives leave their operand as it was
    for t in PS[:4]:
        def entry(m):
            p = P(m, t)
            m.call_method(p, '_eval_derivative_n_times', [x, Const(1)], {}, None)
            return p
        judge('normal', 'operand of the derivative of Pdop %s' % ''.join(mi(t)), interp().run(entry), {mi(t): Const(1)})
    # ---- equality
    for a, b in itertools.product(PS, repeat=2):
        for tr in interp().run(lambda m: m.compare_op('==', P(m, a), P(m, b), None)):
            subj = 'Pdop %s == Pdop %s' % (''.join(mi(a)), ''.join(mi(b)))
            if tr.kind == 'return' and isinstance(tr.value, Const):
                if tr.value.v != (mi(a) == mi(b)):
                    ck.bad('equal', subj, tr.where, 'is %s' % tr.value.v)
                else:
                    ck.ok('equal', subj)
            else:
                ck.undecided('equal', subj, tr.exc or short(tr.value))
    for subj, a, b, eq in (('one operator', L, L, True), ('reordered terms', L, L[::-1], True), ('one term more', L, L[:-1], False), ('one term less', L[:-1], L, False),
                           ('other derivative', L[:1], [('l1', ((y, 1),))], False), ('other coefficient', L[:1], [('r1', ((x, 1),))], False)):
        for tr in interp().run(lambda m: m.compare_op('==', S(m, a), S(m, b), None)):
            if tr.kind == 'return' and isinstance(tr.value, Const):
                if tr.value.v != eq:
                    ck.bad('equal', subj, tr.where, 'Sdop comparison gives %s' % tr.value.v, facts_of(tr))
                else:
                    ck.ok('equal', subj, str(eq))
            elif tr.kind == 'raise':
                ck.bad('equal', subj, tr.where, 'raises %s' % tr.exc)
            else:
                ck.undecided('equal', subj, tr.exc or short(tr.value))
    return ck.finish('Scalar operators with generic coefficients and multi-indices of order up to three; every operation is interpreted and the coefficient of every '
                     'multi-index of its value compared with that of the composition.', min_decided=3)
