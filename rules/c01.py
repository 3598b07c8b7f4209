"""C01: operands that belong to different algebras are always rejected."""
from sa.vals import *
from sa.interp import DUNDER, is_notimpl
from sa.gamodel import *
from rules.dopmodel import DopHooks, build, x as X1, y as Y1

OPS2 = ['+', '-', '*', '/', '^', '|', '<', '>', '<<', '>>']


def ga2(W):
    return W.ga('ga1' if getattr(W, 'one_ga', False) else 'ga2')


class H(MvHooks):
    """operators between operands of one algebra are primitive; between operands
    of two algebras the implementation itself is followed"""

    def differ(self, l, r):
        W = self.W
        if is_mv(W, l) and is_mv(W, r):
            a, b = ga_of(W, l), ga_of(W, r)
            return a is None or b is None or a.name != b.name
        return False

    def binop(self, m, op, l, r, node):
        if self.differ(l, r):
            return None
        return super().binop(m, op, l, r, node)

    def compare(self, m, op, l, r, node):
        if self.differ(l, r):
            return GaHooks.compare(self, m, op, l, r, node)
        return super().compare(m, op, l, r, node)

    def call(self, m, f, args, kw, node):
        if isinstance(f, Cls) and f.ci is self.W.Mv and args and is_mv(self.W, args[0]):
            return None
        q = self.qual(f)
        if q == 'Ga.mv' and args and is_mv(self.W, args[0]):
            return None
        if q and q.startswith('Mv.__') and args and isinstance(f, Bound) and self.differ(f.self_, args[0]):
            return None
        if q == 'Mv.sp':
            return None
        return super().call(m, f, args, kw, node)


def judge(ck, rule, subj, traces, eq=False, ctl=None):
    bad = [t for t in traces if t.kind == 'return' and not is_notimpl(t.value)]
    if eq:
        bad = [t for t in bad if not (isinstance(t.value, Const) and t.value.v is False) and not (
            isinstance(t.value, T) and t.value.op == '==' and all(isinstance(x, Obj) for x in t.value.args))]   # identity comparison
    raised = [t for t in traces if t.kind == 'raise']
    if not bad and any(t.kind == 'budget' for t in traces):
        ck.undecided(rule, subj, 'exploration bound')
        return
    if bad:
        t = bad[0]
        facts = ['path condition: %s is %s' % (short(c), v) for c, v in t.facts[:12]]
        ck.bad(rule, subj, t.where, 'operands of two different algebras are accepted: the call returns %s' % short(t.value, 120),
               facts + ['operands: A in algebra ga1, B in algebra ga2'])
    elif ctl is not None and not ctl():
        ck.undecided(rule, subj, 'operands of one algebra are not accepted either')
    else:
        ck.ok(rule, subj, '%d paths, all rejected (%s)' % (len(traces), ', '.join(sorted({str(t.exc) for t in raised}))))


def run(ck, W):
    ck.rule('mixed-op', 'on every path of `A op B` with A.Ga != B.Ga the call ends in a raise')
    ck.rule('mixed-call', 'on every path of the two-operand function with operands of different algebras the call ends in a raise')
    I = ck.use(Interp(W.prog, H(W), max_traces=600))
    def control(I, entry):
        """with operands of one algebra the call returns"""
        def same(m):
            W.one_ga = True
            try:
                return entry(m)
            finally:
                W.one_ga = False

        def go():
            n0, I.max_traces = I.max_traces, 60
            try:
                return any(t.kind in ('return', 'budget') for t in I.run(same))
            finally:
                I.max_traces = n0
        return go
    kinds = {'Mv': W.mv, 'Dop': lambda n, g: W.dop(n, g), 'Lt': W.lt, 'Mlt': W.mlt}
    pairs = [('Mv', 'Mv', OPS2), ('Mv', 'Dop', ['+', '-', '*', '^', '|', '<', '>']), ('Dop', 'Mv', ['+', '-', '*', '^', '|', '<', '>']),
             ('Dop', 'Dop', ['+', '-', '*', '^', '|', '<', '>']), ('Lt', 'Lt', ['+', '-', '*']), ('Mlt', 'Mlt', ['+', '-', '*', '^', '|'])]
    for k1, k2, ops in pairs:
        for op in ops:
            def entry(m):
                a, b = kinds[k1]('A', W.ga('ga1')), kinds[k2]('B', ga2(W))
                return m.compare_op(op, a, b, None) if op in '<>' and len(op) == 1 else m.binop(op, a, b, None)
            judge(ck, 'mixed-op', '%s %s %s' % (k1, op, k2), I.run(entry), ctl=control(I, entry))
    # operators of one term
    class H2(H, DopHooks):
        def compare(self, m, op, l, r, node):
            if is_mv(W, l) or is_mv(W, r):
                return H.compare(self, m, op, l, r, node)
            return DopHooks.compare(self, m, op, l, r, node)
    I2 = ck.use(Interp(W.prog, H2(W), max_traces=400))

    def sd(m, n, g, mi):
        return build(m, W, n, [(W.mv(n + '.coef', g), mi)], g)
    for op in ['+', '-', '*', '^', '|', '<', '>']:
        for o1, o2 in (((), ()), (((X1, 1),), ((Y1, 1),))):
            def entry(m):
                a, b = sd(m, 'A', W.ga('ga1'), o1), sd(m, 'B', ga2(W), o2)
                return m.compare_op(op, a, b, None) if op in '<>' else m.binop(op, a, b, None)
            judge(ck, 'mixed-op', 'Dop %s Dop of one term, order %d' % (op, len(o1)), I2.run(entry), ctl=control(I2, entry))
    for k in ('Mv', 'Dop'):
        def entry(m):
            return m.compare_op('==', kinds[k]('A', W.ga('ga1')), kinds[k]('B', ga2(W)), None)
        judge(ck, 'mixed-op', '%s == %s' % (k, k), I.run(entry), eq=True)

    # named functions
    def f_of(modname, name):
        return Fn(W.prog.func(modname, name).node, W.prog.module(modname), qual=name) if not isinstance(W.prog.func(modname, name), Fn) else W.prog.func(modname, name)

    def mv1(m):
        return W.mv('A', W.ga('ga1'))

    def mv2(m):
        return W.mv('B', ga2(W))

    def meth(cls, name, mk, *extra):
        def entry(m):
            return m.call_method(mk(m), name, [e(m) if callable(e) else e for e in extra], {}, None)
        return entry

    def func(modname, name, *args):
        def entry(m):
            f = m.module_name(W.prog.module(modname), name)
            return m.call(f, [a(m) if callable(a) else a for a in args], {}, None)
        return entry

    def static(cls, name, *args):
        def entry(m):
            return m.call(m.getattr(Cls(cls), name, None), [a(m) if callable(a) else a for a in args], {}, None)
        return entry
    calls = {
        'Mv.sp': meth(W.Mv, 'sp', mv1, mv2), 'Mv.sp rev': meth(W.Mv, 'sp', mv1, mv2, Const('rev')),
        'Mv.reflect_in_blade': meth(W.Mv, 'reflect_in_blade', mv1, mv2),
        'Mv.project_in_blade': meth(W.Mv, 'project_in_blade', mv1, mv2),
        'Mv.rotate_multivector': meth(W.Mv, 'rotate_multivector', mv1, mv2),
        'mv.cross': func('mv', 'cross', mv1, mv2), 'mv.compare': func('mv', 'compare', mv1, mv2),
        'mv.sp': func('mv', 'sp', mv1, mv2), 'mv.proj': func('mv', 'proj', mv1, mv2),
        'mv.refl': func('mv', 'refl', mv1, mv2), 'mv.rot': func('mv', 'rot', mv1, mv2),
        'Ga.com': static(W.Ga, 'com', mv1, mv2),
        'Dop.Add': static(W.Dop, 'Add', lambda m: W.dop('A', W.ga('ga1')), lambda m: W.dop('B', ga2(W))),
        'Dop.Mul': static(W.Dop, 'Mul', lambda m: W.dop('A', W.ga('ga1')), lambda m: W.dop('B', ga2(W))),
        'Lt.__call__': lambda m: m.call(W.lt('A', W.ga('ga1')), [W.mv('B', ga2(W))], {}, None),
        'Mv(x, ga=other)': lambda m: m.call(Cls(W.Mv), [W.mv('A', W.ga('ga1'))], {'ga': ga2(W)}, None),
        'Ga.mv(x of other)': lambda m: m.call_method(ga2(W), 'mv', [W.mv('A', W.ga('ga1'))], {}, None),
        'Ga.lt * Mv': lambda m: m.call(W.lt('A', W.ga('ga1'), versor=TRUE), [W.mv('B', ga2(W))], {}, None),
    }
    for op in '*^|<>':
        calls['Mv.Mul %s' % op] = static(W.Mv, 'Mul', mv1, mv2, Const(op))
        calls['Dop.Mul %s (Mv,Dop)' % op] = static(W.Dop, 'Mul', mv1, lambda m: W.dop('B', ga2(W)), Const(op))
        calls['Dop.Mul %s (Dop,Mv)' % op] = static(W.Dop, 'Mul', lambda m: W.dop('A', W.ga('ga1')), mv2, Const(op))
    for nm, e in calls.items():
        judge(ck, 'mixed-call', nm, I.run(e), ctl=control(I, e))
    return ck.finish('Abstract interpretation of every overloaded operator and every named two-operand function on abstract operands '
                     'whose algebras are known to differ; every abstract path (branches partitioned, loops over unknown collections by '
                     'a representative element) has to end in an exception. Positive control: the same entry points with operands of '
                     'one algebra return.', min_decided=3)
