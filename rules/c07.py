"""C07: duals: the eight conventions, undual, and the normalised pseudoscalar."""
from fractions import Fraction
from sa.vals import *
from sa.vals import V
from sa.interp import Interp, PyRaise
from sa.gamodel import *
from sa.judge import TraceNorm, facts_of
from sa.ncpoly import NC, Ctx, cconst
from rules.c04 import X

MODES = {'+I': (1, False, 'l'), 'I+': (1, False, 'r'), '-I': (-1, False, 'l'), 'I-': (-1, False, 'r'),
         '+Iinv': (1, True, 'l'), 'Iinv+': (1, True, 'r'), '-Iinv': (-1, True, 'l'), 'Iinv-': (-1, True, 'r')}


def pseudo_ctx(s):
    """I I = s, I^-1 = s I"""
    c = Ctx()
    at = (('x', 'I', ('I',)), False, False)
    w = NC.word(at)
    for nm, k in (('ga.i.obj', 1), ('ga.i_inv.obj', s)):
        c.subst[T(nm, typ=EXPR).key()] = w.scale(cconst(k))
    c.rewrites[(at, at)] = NC.scal(cconst(s))
    return c


def cmp2(W, ck, rule, subj, traces, spec):
    n = 0
    for t in traces:
        if t.kind == 'budget':
            ck.undecided(rule, subj, t.exc)
            return
        if t.kind == 'raise':
            ck.bad(rule, subj, t.where, 'raises %s' % t.exc, facts_of(t))
            return
        for s in (1, -1):
            N = TraceNorm(W, t, pseudo_ctx(s))
            g = N.nf(t.value)
            if N.unknown:
                ck.undecided(rule, subj, short(N.unknown[0]))
                return
            e = TraceNorm(W, t, pseudo_ctx(s)).nf(spec)
            if g != e:
                ck.bad(rule, subj, t.where, 'for I**2 = %d computes %r, specified is %r' % (s, g, e), facts_of(t))
                return
        n += 1
    ck.ok(rule, subj, repr(g)) if n else ck.undecided(rule, subj, 'no path')


def run(ck, W):
    ck.rule('dual', 'under each convention dual(A) is the signed product of A with I or its inverse, on the side the convention names')
    ck.rule('undual', 'undual undoes dual under every convention, for I**2 = 1 and I**2 = -1')
    ck.rule('mode', 'an unknown convention is rejected and leaves the current one unchanged')
    ck.rule('pseudoscalar', 'on every path of the constructor with nonzero E**2, i is a multiple of E with i*i = 1 or -1 as the sign of E**2 demands, and i*i_inv = 1')
    a = T('A.obj', typ=EXPR)
    i, ii = T('ga.i.obj', typ=EXPR), T('ga.i_inv.obj', typ=EXPR)

    def prod(k, neg, inv, side, x):
        p = inv and ii or i
        r = X('gp', p, x) if side == 'l' else X('gp', x, p)
        return X('neg', r) if neg < 0 else r
    has_undual = W.Mv.lookup('undual') is not None
    for mode, (sg, inv, side) in MODES.items():
        for how in ('dual', 'undual'):
            if how == 'undual' and not has_undual:
                continue
            I = ck.use(Interp(W.prog, MvHooks(W)))

            def entry(m):
                m.call(m.getattr(Cls(W.Ga), 'dual_mode', None), [Const(mode)], {}, None)
                return m.call_method(W.mv('A', W.ga('ga')), how, [], {}, None)
            spec = prod(0, sg, inv, side, a) if how == 'dual' else prod(0, sg, not inv, side, a)
            cmp2(W, ck, how, '%s with mode %s' % (how, mode), I.run(entry), spec)
    I = ck.use(Interp(W.prog, MvHooks(W)))
    cmp2(W, ck, 'dual', 'dual without a chosen mode', I.run(lambda m: m.call_method(W.mv('A', W.ga('ga')), 'dual', [], {}, None)), X('gp', a, i))
    # unknown modes
    for bad in ('', 'I', '+', 'Iinv', '+J', 'i+', 'I*', '++I', 'I+ ', '*I'):
        I = ck.use(Interp(W.prog, MvHooks(W)))
        subj = 'dual_mode(%r)' % bad

        def entry(m):
            before = m.getattr(Cls(W.Ga), 'dual_mode_value', None)
            try:
                m.call(m.getattr(Cls(W.Ga), 'dual_mode', None), [Const(bad)], {}, None)
            except PyRaise as e:
                return Seq('tuple', [TRUE, before, m.getattr(Cls(W.Ga), 'dual_mode_value', None)])
            return Seq('tuple', [FALSE, before, before])
        for t in I.run(entry):
            if t.kind != 'return':
                ck.undecided('mode', subj, t.exc)
            elif t.value.items[0] == FALSE:
                ck.bad('mode', subj, t.where or 'galgebra/ga.py (Ga.dual_mode)', 'accepted')
            elif t.value.items[1] != t.value.items[2]:
                ck.bad('mode', subj, t.where or 'galgebra/ga.py (Ga.dual_mode)', 'the rejected mode stays selected')
            else:
                ck.ok('mode', subj, 'rejected')
    pseudoscalar(ck, W)
    square(ck, W)
    return ck.finish('Value numbering of the dual operations over the free product with I*I = 1 and I*I = -1, one case per convention; '
                     'path-partitioned interpretation of the constructor of the algebra for the pseudoscalar.', min_decided=3)


class InitHooks(MvHooks):
    """the constructor of Ga with an uninterpreted metric"""

    def __init__(self, W, isq, number):
        super().__init__(W)
        self.isq, self.number = isq, number

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q == 'Metric.__init__':
            s = f.self_ if isinstance(f, Bound) else args[0]
            for k, v in {'debug': FALSE, 'coords': NONE, 'connect_flg': FALSE, 'Isq': Const(self.isq), 'n': T('n', typ='builtins.int')}.items():
                s.fields[k] = v
            return NONE
        if q in ('Ga._print_basis_and_blade_debug', 'Ga._build_connection', 'Ga._build_grads', 'Ga._update_de_from_rbasis'):
            return NONE
        return super().call(m, f, args, kw, node)

    def getattr(self, m, o, name, node):
        W = self.W
        if is_ga(W, o) and name not in o.fields:
            if name in ('e', 'i', 'i_inv'):
                return None
            if name == 'blades':
                return Obj('blades', 'GradedTuple', fields={'flat': Seq('tuple', [Each(T('blade', typ=EXPR)), T('Eobj', typ=EXPR)])})
        if isinstance(o, T) and name == 'is_number' and 'e_sq' in repr(o):
            return Const(self.number)
        return super().getattr(m, o, name, node)


def square(ck, W):
    for n in range(0, 9):
        I = ck.use(Interp(W.prog, MvHooks(W, skip={'Ga.e_sq'})))
        tr = I.run(lambda m: m.getattr(W.ga('ga', n=Const(n), gsym=Const('g'), detg=T('detg', typ=EXPR)), 'e_sq', None))
        subj = 'E**2 for a symbolic metric, n = %d' % n
        cmpe(ck, W, subj, tr, X('*', Const((-1) ** (n * (n - 1) // 2)), T('detg', typ=EXPR)))
    I = ck.use(Interp(W.prog, MvHooks(W, skip={'Ga.e_sq'})))
    tr = I.run(lambda m: m.getattr(W.ga('ga', gsym=NONE), 'e_sq', None))
    e = T('ga.e.obj', typ=EXPR)
    cmpe(ck, W, 'E**2 otherwise', tr, X('scal', X('gp', e, e)))


def cmpe(ck, W, subj, tr, spec):
    from sa.judge import compare
    for t in tr:
        if t.kind == 'raise':
            ck.bad('pseudoscalar', subj, t.where, 'raises %s' % t.exc)
            continue
        c = Ctx()
        c.subst[T('detg', typ=EXPR).key()] = NC.scal({((('x', 'detg', ('detg',)), 1),): Fraction(1)})
        r, x = compare(W, t, t.value, spec, c) if t.kind == 'return' else ('undecided', t.exc)
        (ck.bad('pseudoscalar', subj, t.where, x) if r == 'VIOLATED' else ck.ok('pseudoscalar', subj, x) if r == 'holds' else ck.undecided('pseudoscalar', subj, x))


def sign_facts(t, key):
    """sign of E**2 on the path: '+', '-', '0', '>=' , '<=' or None"""
    pos = neg = zero = None
    for c, v in t.facts:
        if not (isinstance(c, T) and len(c.args) == 2):
            continue
        l, r, op = c.args[0], c.args[1], c.op
        if isinstance(l, Const):
            l, r, op = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not (isinstance(r, Const) and r.v == 0 and isinstance(l, V) and l.key() == key):
            continue
        if op == '>':
            pos = v
        elif op == '<':
            neg = v
        elif op == '==':
            zero = v
        elif op == '>=':
            neg = not v
        elif op == '<=':
            pos = not v
        elif op == '!=':
            zero = not v
    if zero:
        return '0'
    if pos:
        return '+'
    if neg or (pos is False and zero is False):
        return '-'
    if neg is False and zero is False:
        return '+'
    return None


def pseudoscalar(ck, W):
    for isq in ('+', '-'):
        for number in (True, False):
            H = InitHooks(W, isq, number)
            I = ck.use(Interp(W.prog, H))
            subj = 'constructor, I**2 sign %s, E**2 %s' % (isq, 'a number' if number else 'symbolic')
            out = {}

            def entry(m):
                g = W.ga('ga')
                out['g'] = g
                m.call_method(g, '__init__', [T('bases')], {}, None)
                return Seq('tuple', [m.getattr(g, x, None) for x in ('e', 'i', 'i_inv', 'e_sq')])
            for t in I.run(entry):
                if t.kind != 'return':
                    ck.undecided('pseudoscalar', subj, '%s %s' % (t.kind, t.exc))
                    continue
                e, i, ii, esq = t.value.items
                sg = sign_facts(t, esq.key())
                if sg is None and not number:
                    sg = isq
                if sg == '0':
                    ck.ok('pseudoscalar', subj + ', E**2 zero', 'not normalisable, reported')
                    continue
                N = TraceNorm(W, t)
                E = NC.word((('x', 'E', ('E',)), False, False))
                N.ctx.subst[T('Eobj', typ=EXPR).key()] = E
                N.ctx.subst[esq.key()] = NC.scal({((('x', 'Esq', ('Esq',)), 1),): Fraction(1)})
                x, y, q = N.nf(i), N.nf(ii), N.nf(esq)
                s2 = subj + ', path %s' % sg
                if N.unknown or sg is None or len(x.t) != 1 or len(y.t) != 1 or list(x.t) != list(E.t) or list(y.t) != list(E.t):
                    ck.undecided('pseudoscalar', s2, '%s; %s' % (short(i), [(short(c), v) for c, v in t.facts]))
                    continue
                cx, cy = x.t[list(E.t)[0]], y.t[list(E.t)[0]]
                ck_pair(ck, s2, t, cx, cy, q, sg)


def ck_pair(ck, subj, t, cx, cy, q, sg):
    from sa.ncpoly import cmul, csqrt, cinv
    q = q.scalar()
    root = csqrt(q if sg == '+' else {m: -c for m, c in q.items()})
    # c*root = k with k a number
    a, b = cmul(cx, root), cmul(cy, root)
    if set(a) - {()} or set(b) - {()}:
        ck.bad('pseudoscalar', subj, t.where, 'i is not E divided by the square root of %sE**2' % ('' if sg == '+' else '-'), facts_of(t))
        return
    ka, kb = a.get((), 0), b.get((), 0)
    # i*i = ka^2 * (sign), i*i_inv = ka*kb*sign
    s = 1 if sg == '+' else -1
    if ka * ka != 1 or ka * kb * s != 1:
        ck.bad('pseudoscalar', subj, t.where, 'i*i = %s, i*i_inv = %s on the path where E**2 is %s' % (ka * ka * s, ka * kb * s, 'positive' if s > 0 else 'negative'), facts_of(t))
        return
    ck.ok('pseudoscalar', subj, 'i*i = %d, i*i_inv = 1' % s)
