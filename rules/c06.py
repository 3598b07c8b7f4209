"""C06: grade projection, reversion, involutions, scalar/even/odd parts."""
from sa.vals import *
from sa.interp import Interp
from sa.gamodel import *
from sa.terms import Terms, NG


def run(ck, W):
    ck.rule('sign-table', 'the coefficient of the grade-k term in the value of the operation has the defining sign (or is absent), for every grade class k')
    shapes = {
        'general sum': [('c0', 0, 0)] + [('c%d' % k, k, 0) for k in range(1, NG + 1)] + [('d%d' % k, k, 1) for k in (1, 2, 3, 4)],
        'sum without scalar part': [('c%d' % k, k, 0) for k in range(1, NG + 1)] + [('d2', 2, 1)],
        'scalar': [('c0', 0, 0)], 'zero': [],
        'one term of grade 1': [('c1', 1, 0)], 'one term of grade 2': [('c2', 2, 0)], 'one term of grade 3': [('c3', 3, 0)],
        'basis vector': [(None, 1, 0)], 'basis bivector': [(None, 2, 0)], 'two terms of one grade': [('c3', 3, 0), ('d3', 3, 1)],
        'scalar plus bivector': [('c0', 0, 0), ('c2', 2, 0)], 'scalar plus vector': [('c0', 0, 0), ('c1', 1, 0)],
        'negated term': [('c1', 1, 0), (None, 2, 0)],
    }
    even = lambda k: k % 2 == 0
    rev = lambda k: -1 if (k * (k - 1) // 2) % 2 else 1
    inv = lambda k: -1 if k % 2 else 1
    ops = {
        'reversion': rev, 'even part': lambda k: 1 if even(k) else 0, 'odd part': lambda k: 0 if even(k) else 1,
        'grade involution': inv, 'Clifford conjugation': lambda k: rev(k) * inv(k),
        'scalar part': lambda k: 1 if k == 0 else 0, 'part without scalar': lambda k: 0 if k == 0 else 1,
    }
    gamap = {
        'Ga.reverse': ('reversion', ()), 'Ga.even_odd(even=True)': ('even part', (TRUE,)), 'Ga.even_odd(even=False)': ('odd part', (FALSE,)),
        'Ga.even_odd()': ('even part', ()), 'Ga.scalar_part': ('scalar part', ()), 'Ga.remove_scalar_part': ('part without scalar', ()),
    }
    mvmap = {'Mv.rev': 'reversion', 'Mv.even': 'even part', 'Mv.odd': 'odd part', 'Mv.g_invol': 'grade involution',
             'Mv.ccon': 'Clifford conjugation', 'Mv.scalar': 'scalar part', 'Mv.__invert__': 'reversion'}

    def expected(H, spec, f, base=False):
        out = {}
        for nm, k, i in spec:
            s = f(k)
            if s:
                out[(repr(H.blades[k - 1][i]) if k else '1', nm or '1')] = s
        return out

    def judge(subj, H, traces, exp, pick=lambda v: v):
        n = 0
        for t in traces:
            if t.kind == 'budget':
                ck.undecided('sign-table', subj, t.exc)
                return
            if t.kind == 'raise':
                ck.bad('sign-table', subj, t.where, 'raises %s' % t.exc, ['path: %s is %s' % (short(c), v) for c, v in t.facts[:8]])
                return
            v = pick(t.value)
            if isinstance(v, Obj) and 'obj' in v.fields:
                rep = v.fields.get('is_blade_rep')
                v = v.fields['obj']
            got = H.table(v) if isinstance(v, V) else None
            if got is None:
                ck.undecided('sign-table', subj, 'value %s' % short(v))
                return
            got = {k: n for k, n in got.items()}
            if got != exp and {k: n for k, n in tobl(H, got).items()} != exp:
                ck.bad('sign-table', subj, t.where, 'yields %s, by definition %s' % (fmt(got), fmt(exp)), ['path: %s is %s' % (short(c), x) for c, x in t.facts[:8]])
                return
            n += 1
        if n:
            ck.ok('sign-table', subj, fmt(exp))
        else:
            ck.undecided('sign-table', subj, 'no path')

    def tobl(H, tab):
        m = {repr(B): repr(H.conv[B.key()]) for g in H.bases for B in g}
        return {(m.get(b, b), c): n for (b, c), n in tab.items()}

    for sn, spec in shapes.items():
        for nm, (op, extra) in gamap.items():
            if W.Ga.lookup(nm.split('(')[0][3:]) is None:
                continue
            H = Terms(W)
            I = ck.use(Interp(W.prog, H))
            judge('%s of %s' % (nm, sn), H, I.run(lambda m: m.call_method(W.ga('ga'), nm.split('(')[0][3:], [H.expr(spec)] + list(extra), {}, None)),
                  expected(H, spec, ops[op]))
        for r in list(range(NG + 1)):
            H = Terms(W)
            I = ck.use(Interp(W.prog, H))
            judge('Ga.get_grade(%d) of %s' % (r, sn), H, I.run(lambda m: m.call_method(W.ga('ga'), 'get_grade', [H.expr(spec), Const(r)], {}, None)),
                  expected(H, spec, lambda k: 1 if k == r else 0))
        H = Terms(W)
        I = ck.use(Interp(W.prog, H))
        tr = I.run(lambda m: m.call_method(W.ga('ga'), 'split_multivector', [H.expr(spec)], {}, None))
        for i, op in ((0, 'scalar part'), (1, 'part without scalar')):
            judge('Ga.split_multivector[%d] of %s' % (i, sn), H, tr, expected(H, spec, ops[op]),
                  lambda v: v.items[i] if isinstance(v, Seq) and len(v.items) == 2 else None)
        # grades: the set of grades present
        present = sorted({k for _, k, _ in spec}) or [0]
        for what, base in (('', False), (' (base representation)', True)):
            H = Terms(W)
            I = ck.use(Interp(W.prog, H))
            subj = 'Ga.grades of %s%s' % (sn, what)
            for t in I.run(lambda m: m.call_method(W.ga('ga'), 'grades', [H.expr(spec, base)], {}, None)):
                v = t.value
                if t.kind == 'raise':
                    ck.bad('sign-table', subj, t.where, 'raises %s' % t.exc)
                elif isinstance(v, Seq) and all(isinstance(x, Const) for x in v.items):
                    got = [x.v for x in v.items]
                    if sorted(got) != present or len(set(got)) != len(got):
                        ck.bad('sign-table', subj, t.where, 'yields %s, grades present %s' % (got, present))
                    else:
                        ck.ok('sign-table', subj, str(got))
                else:
                    ck.undecided('sign-table', subj, short(v))
        # grade decomposition of an expression and of a multivector
        for kind in ('expression', 'multivector', 'multivector in base representation'):
            H = Terms(W, skip={'Mv.characterise_Mv'} if kind != 'expression' else ())
            I = ck.use(Interp(W.prog, H))
            subj = 'Ga.grade_decomposition of %s (%s)' % (sn, kind)

            def entry(m):
                g = W.ga('ga')
                e = H.expr(spec, 'base' in kind)
                if kind != 'expression':
                    e = W.mv('A', g, obj=e, is_blade_rep=Const('base' not in kind), char_Mv=FALSE, i_grade=NONE, grades=NONE, blade_flg=NONE)
                return m.call_method(g, 'grade_decomposition', [e], {}, None)
            for t in I.run(entry):
                v = t.value
                if t.kind == 'raise':
                    ck.bad('sign-table', subj, t.where, 'raises %s' % t.exc)
                    continue
                if not isinstance(v, Dct) or v.open is not None or not all(isinstance(i[0], Const) for i in v.items):
                    ck.undecided('sign-table', subj, short(v))
                    continue
                got, und = {}, False
                for k, x, *_ in v.items:
                    x = x.fields['obj'] if isinstance(x, Obj) else x
                    tb = H.table(x)
                    if tb is None:
                        und = True
                        break
                    if tb:
                        got[k.v] = tb
                if und:
                    ck.undecided('sign-table', subj, short(v))
                    continue
                exp = {k: expected(H, [s for s in spec if s[1] == k], lambda k: 1) for k in {s[1] for s in spec}}
                if got != exp:
                    ck.bad('sign-table', subj, t.where, 'parts %s, by definition %s' % ({k: fmt(x) for k, x in got.items()}, {k: fmt(x) for k, x in exp.items()}))
                else:
                    ck.ok('sign-table', subj)
        for nm, op in mvmap.items():
            if W.Mv.lookup(nm[3:]) is None:
                continue
            for base in (False, True):
                H = Terms(W)
                I = ck.use(Interp(W.prog, H))
                judge('%s of %s%s' % (nm, sn, ' (base representation)' if base else ''), H,
                      I.run(lambda m: m.call_method(W.mv('A', W.ga('ga'), obj=H.expr(spec, base), is_blade_rep=Const(not base)), nm[3:], [], {}, None)),
                      expected(H, spec, ops[op]))
        for nm in ('get_grade', 'grade'):
            for r in (0, 1, 2, 3, 4, 5):
                for base in (False, True):
                    H = Terms(W)
                    I = ck.use(Interp(W.prog, H))
                    judge('Mv.%s(%d) of %s%s' % (nm, r, sn, ' (base representation)' if base else ''), H,
                          I.run(lambda m: m.call_method(W.mv('A', W.ga('ga'), obj=H.expr(spec, base), is_blade_rep=Const(not base)), nm, [Const(r)], {}, None)),
                          expected(H, spec, lambda k: 1 if k == r else 0))
    # calling a multivector A(r), A() == all grades
    return ck.finish('Constant propagation through the grade operations over a multivector with one term in each grade class 0..%d '
                     '(coefficients unknown); the sign and presence of every term of the value is compared with the definition.' % NG, min_decided=3)


def fmt(t):
    if t is None:
        return '?'
    return ' + '.join('%s*%s*%s' % (n, c, b) for (b, c), n in sorted(t.items(), key=str))[:200] or '0'
