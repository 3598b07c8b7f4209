"""C04: every operator symbol and named product computes its product, with the operands in the written order."""
from fractions import Fraction
from sa.vals import *
from sa.interp import is_notimpl
from sa.gamodel import *
from sa.judge import compare, facts_of


def X(op, *a):
    return T(op, *a, typ=EXPR)


class H1(GaHooks):
    """layer 1: the multivector operators are interpreted, the products of the algebra are primitive"""

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if isinstance(f, Bound) and is_mv(self.W, f.self_):
            if q == 'Mv.inv' and q not in self.skip:
                return T('mvinv', f.self_, typ=self.W.Mv)
            if q == 'Mv.scalar' and q not in self.skip:
                return T('scal', f.self_, typ=EXPR)
        return super().call(m, f, args, kw, node)

    def getattr(self, m, o, name, node):
        if isinstance(o, T) and is_mv(self.W, o):
            return MvHooks.getattr(self, m, o, name, node)
        return super().getattr(m, o, name, node)


def value_of(W, v):
    return v


class Judge:
    def __init__(self, ck, W, rule):
        self.ck, self.W, self.rule = ck, W, rule

    def __call__(self, subj, traces, spec, ga=True, ctxf=None, hook=None, mustret=True):
        ck, W = self.ck, self.W
        st, und, n, why = 'holds', None, 0, ''
        for t in traces:
            if t.kind == 'budget':
                und = 'exploration bound'
                continue
            if t.kind == 'raise':
                continue
            if is_notimpl(t.value):
                continue
            n += 1
            sp = spec(t) if callable(spec) else spec
            r, txt = compare(W, t, t.value, sp, ctxf() if ctxf else None, hook)
            if r == 'VIOLATED':
                ck.bad(self.rule, subj, t.where, txt, facts_of(t))
                return
            if r == 'undecided':
                und = txt
            else:
                why = txt
            if ga and isinstance(t.value, Obj) and t.value.fields.get('Ga') is not None:
                g = t.value.fields['Ga']
                if isinstance(g, Obj) and g.name != 'ga':
                    ck.bad(self.rule, subj, t.where, 'the result belongs to another algebra (%s)' % short(g))
                    return
        if n == 0 and und is None:
            if mustret and traces and all(t.kind == 'raise' for t in traces):
                ck.bad(self.rule, subj, traces[0].where, 'raises %s on every path' % traces[0].exc, facts_of(traces[0]))
                return
            und = 'no returning path'
        if und is not None:
            ck.undecided(self.rule, subj, und)
        else:
            ck.ok(self.rule, subj, '%d paths, value %s' % (n, why))


def run(ck, W):
    ck.rule('product', 'normal form of the value of `A op B` equals the normal form of the named product of A and B in this order')
    ck.rule('derived', 'normal form of the value of the derived operator equals its definition in terms of the products')
    ck.rule('dispatch', 'the mode argument selects the named product, operands in the given order')
    GA = lambda: W.ga('ga')
    a, b = T('A.obj', typ=EXPR), T('B.obj', typ=EXPR)
    s = T('s', typ=EXPR)
    half = Const(Fraction(1, 2), True)

    def ctx():
        from sa.ncpoly import Ctx
        c = Ctx()
        c.central.add(s.key())
        return c

    def A(g=None):
        return W.mv('A', g or GA())

    def two():
        g = GA()
        return W.mv('A', g), W.mv('B', g)

    def run_op(I, op, mk):
        def entry(m):
            l, r = mk()
            if op in ('<', '>'):
                return m.compare_op(op, l, r, None)
            return m.binop(op, l, r, None)
        return I.run(entry)
    I1 = ck.use(Interp(W.prog, H1(W)))
    J = Judge(ck, W, 'product')
    # products of two multivectors
    for op, sp in [('+', X('+', a, b)), ('-', X('-', a, b)), ('*', X('gp', a, b)), ('^', X('wedge', a, b)), ('|', X('hd', a, b)),
                   ('<', X('lc', a, b)), ('>', X('rc', a, b))]:
        J('A %s B' % op, run_op(I1, op, two), sp, ctxf=ctx)
    # one scalar operand
    zero = Const(0)
    sc = {('+', 0): X('+', a, s), ('+', 1): X('+', s, a), ('-', 0): X('-', a, s), ('-', 1): X('-', s, a),
          ('*', 0): X('*', s, a), ('*', 1): X('*', s, a), ('^', 0): X('*', s, a), ('^', 1): X('*', s, a),
          ('|', 0): zero, ('|', 1): zero, ('<', 0): X('*', s, X('scal', a)), ('<', 1): X('*', s, a),
          ('>', 0): X('*', s, a), ('>', 1): X('*', s, X('scal', a)), ('/', 0): X('/', a, s)}
    for (op, side), sp in sc.items():
        for nm, sv in (('s', s), ('3', Const(3))):
            spv = sp if nm == 's' else subst(sp, s, Const(3))
            J(('A %s %s' if side == 0 else '%s %s A') % (('%s' % op, nm) if side == 0 else (nm, op)),
              run_op(I1, op, (lambda: (A(), sv)) if side == 0 else (lambda: (sv, A()))), spv, ctxf=ctx)
    J('-A', I1.run(lambda m: m.unop('neg', A(), None)), X('neg', a))
    J('~A', I1.run(lambda m: m.unop('inv', A(), None)), X('rev', a))
    # derived operators, on top of the products
    D = Judge(ck, W, 'derived')

    def dun(name, mk, skip=None):
        I = ck.use(Interp(W.prog, MvHooks(W, skip={'Mv.' + name} | set(skip or ()))))

        def entry(m):
            l, r = mk()
            return m.call_method(l, name, [r], {}, None)
        return I.run(entry)
    inv = lambda x: T('mvinv', x, typ=W.Mv)
    D('A / B', dun('__truediv__', two), X('gp', a, inv(b)))
    D('s / A', dun('__rtruediv__', lambda: (A(), s)), X('*', s, inv(a)), ctxf=ctx)
    D('A << B', dun('__lshift__', two), X('*', half, X('+', X('gp', a, b), X('gp', b, a))))
    D('A >> B', dun('__rshift__', two), X('*', half, X('-', X('gp', a, b), X('gp', b, a))))
    D('s << A', dun('__rlshift__', lambda: (A(), s)), X('*', s, a), ctxf=ctx)
    D('s >> A', dun('__rrshift__', lambda: (A(), s)), zero, ctxf=ctx)
    D('A << s', dun('__lshift__', lambda: (A(), s)), X('*', s, a), ctxf=ctx)
    D('A >> s', dun('__rshift__', lambda: (A(), s)), zero, ctxf=ctx)
    Ic = ck.use(Interp(W.prog, MvHooks(W)))

    def com(m):
        l, r = two()
        return m.call(m.getattr(Cls(W.Ga), 'com', None), [l, r], {}, None)
    D('Ga.com(A, B)', Ic.run(com), X('*', half, X('-', X('gp', a, b), X('gp', b, a))))
    for n in (0, 1, 2, 3, 5):
        sp = Const(1)
        for _ in range(n):
            sp = X('gp', sp, a)
        D('A ** %d' % n, dun('__pow__', lambda: (A(), Const(n))), sp)
    D('A ** -1', dun('__pow__', lambda: (A(), Const(-1))), inv(a))
    # named / mode-selected products
    P = Judge(ck, W, 'dispatch')
    modes = {'*': 'gp', '^': 'wedge', '|': 'hd', '<': 'lc', '>': 'rc'}

    def call_static(I, cls, name, mk):
        def entry(m):
            return m.call(m.getattr(Cls(cls), name, None), mk(), {}, None)
        return I.run(entry)
    for op, t in modes.items():
        P('Mv.Mul(A, B, %r)' % op, call_static(Ic, W.Mv, 'Mul', lambda: list(two()) + [Const(op)]), X(t, a, b))
        P('Mv.Mul(s, A, %r)' % op, call_static(Ic, W.Mv, 'Mul', lambda: [s, A(), Const(op)]), X(t, s, a), ctxf=ctx)
        P('Mv.Mul(A, s, %r)' % op, call_static(Ic, W.Mv, 'Mul', lambda: [A(), s, Const(op)]), X(t, a, s), ctxf=ctx)
        e1, e2 = T('E1', typ=EXPR), T('E2', typ=EXPR)

        def meth(name, *args):
            return I1.run(lambda m: m.call_method(GA(), name, list(args), {}, None))
        P('Ga.Mul(E1, E2, %r)' % op, meth('Mul', e1, e2, Const(op)), X(t, e1, e2))
        P('Ga.er_blade(E1, E2, %r, left=True)' % op, meth('er_blade', e1, e2, Const(op), TRUE), X(t, e1, e2))
        P('Ga.er_blade(E1, E2, %r, left=False)' % op, meth('er_blade', e1, e2, Const(op), FALSE), X(t, e2, e1))
        if op in '|<>':
            def dot(m):
                g = GA()
                g.fields['dot_mode'] = Const(op)
                return m.call_method(g, 'dot', [e1, e2], {}, None)
            P('Ga.dot(E1, E2) with dot_mode %r' % op, I1.run(dot), X(t, e1, e2))
    # unknown modes are rejected
    bad = T('mode', typ='builtins.str')
    return ck.finish('Value numbering: the operator implementations are interpreted over abstract multivectors with the products of the '
                     'algebra as free operations; the canonical form of every returned value is compared with the canonical form of '
                     'the definition.  Derived operators (quotient, commutator, powers) are checked on top of the products.',
                     min_decided=3)


def subst(v, k, x):
    if isinstance(v, V) and v.key() == k.key():
        return x
    if isinstance(v, T):
        return T(v.op, *[subst(y, k, x) if isinstance(y, V) else y for y in v.args], typ=v.typ)
    return v
