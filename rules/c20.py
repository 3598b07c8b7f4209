"""C20: the exponential of a multivector with scalar square."""
from fractions import Fraction
from sa.vals import *
from sa.vals import V
from sa.interp import Interp
from sa.gamodel import *
from sa.judge import TraceNorm, facts_of, unwrap, zero
from sa.ncpoly import NC, Ctx, cconst, cinv, cmul
from rules.c04 import X


class ExpHooks(MvHooks):
    """the multivector has K terms"""

    def __init__(self, W, K):
        super().__init__(W, skip={'Mv.exp'})
        self.K = K

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q in ('linear_expand', 'linear_expand_terms') and len(args) == 1 and unwrap(args[0]).key() == T('A.obj', typ=EXPR).key():
            cs = [T('c%d' % j, typ=EXPR) for j in range(self.K)]
            bs = [T('b%d' % j, typ=EXPR) for j in range(self.K)]
            if q == 'linear_expand':
                return Seq('tuple', [Seq('tuple', cs), Seq('tuple', bs)])
            return Seq('list', [Seq('tuple', list(x)) for x in zip(cs, bs)])
        return super().call(m, f, args, kw, node)


def run(ck, W):
    ck.rule('exp', 'every returned value is C + S/n A with (C, S, n) = (cosh n, sinh n, sqrt(A**2)) or (cos n, sin n, sqrt(-A**2)), and 1 + A where A**2 = 0')
    ck.rule('reject', 'a value is only returned on paths which have established that A**2 is a scalar')
    a = T('A.obj', typ=EXPR)
    for K in (1, 2):
        for hint in (None, '-', '+'):
            I = ck.use(Interp(W.prog, ExpHooks(W, K)))
            tr = I.run(lambda m: m.call_method(W.mv('A', W.ga('ga')), 'exp', [] if hint is None else [Const(hint)], {}, None))
            for k, t in enumerate(tr):
                subj = 'exp of %s, hint %s, path %d' % ('one term' if K == 1 else 'several terms', hint, k)
                if t.kind == 'raise':
                    notsc = any(not v and isinstance(c, T) and c.op == 'is_scalar' for c, v in t.facts) or any('grades' in repr(c) for c, v in t.facts)
                    if notsc:
                        ck.ok('reject', subj, t.exc)
                    else:
                        ck.bad('exp', subj, t.where, 'raises %s' % t.exc, facts_of(t))
                    continue
                if t.kind != 'return':
                    ck.undecided('exp', subj, t.exc)
                    continue
                judge(ck, W, K, subj, t, a)
    return ck.finish('Value numbering of exp on every path, for a multivector of one term and of several terms; the square of the multivector is a scalar where the path has '
                     'tested it.', min_decided=3)


def norm(W, t, K, a):
    c = Ctx()
    for j in range(K):
        c.central.add(T('c%d' % j, typ=EXPR).key())
    if K == 1:
        b = T('b0', typ=EXPR)
        at = (('x', 'b0', b.key()), False, False)
        c.rewrites[(at, at)] = NC.scal({((('x', 'b0^2', ('bb',)), 1),): Fraction(1)})
        c.subst[a.key()] = NC({(at,): {((('x', 'c0', T('c0', typ=EXPR).key()), 1),): Fraction(1)}})
    N = TraceNorm(W, t, c)
    return N


def judge(ck, W, K, subj, t, a):
    N = norm(W, t, K, a)
    A = N.nf(a)
    sq = N.gp(A, A)
    tested = [c for c, v in t.facts if v and isinstance(c, T) and c.op == 'is_scalar' and N.nf(unwrap(c.args[0])) == sq] or [
        c for c, v in t.facts if v and isinstance(c, T) and c.op == '==' and 'grades' in repr(c)]
    if not tested:
        if any('is_scalar' in repr(c) or 'grade' in repr(c) for c, v in t.facts):
            ck.bad('reject', subj, t.where, 'returns a value for a multivector whose square is not established to be a scalar', facts_of(t)) if any(
                isinstance(c, T) and c.op == 'is_scalar' for c, v in t.facts) else ck.undecided('reject', subj, 'other test')
        else:
            ck.bad('reject', subj, t.where, 'returns a value without having tested that the square is a scalar', facts_of(t))
        return
    ck.ok('reject', subj, 'square tested')
    one = NC.scal(cconst(1))
    g = N.nf(t.value)
    if N.unknown:
        ck.undecided('exp', subj, short(N.unknown[0]))
        return
    zr = any(isinstance(c, T) and c.op in ('==', '!=') and v == (c.op == '==') and any(zero(x) for x in c.args)
             and any(isinstance(x, V) and N.nf(x) == NC() or raw(W, t, K, a, x) == sq for x in c.args if not zero(x)) for c, v in t.facts)
    if zr:
        if g == one + A:
            ck.ok('exp', subj, '1 + A')
        else:
            ck.bad('exp', subj, t.where, 'computes %r for A**2 = 0' % g, facts_of(t))
        return
    # find the argument of the even function
    sc = g.scalar()
    args = []
    for m in sc:
        for at, e in m:
            if at[0] == 'fun' and at[1] in ('cos', 'cosh'):
                args.append((at[1], at[2]))
    if g == one + A:
        ck.bad('exp', subj, t.where, 'returns 1 + A although A**2 = 0 is not established', facts_of(t))
        return
    if len(args) != 1:
        kinds = {at[1] for m in sc for at, e in m if at[0] == 'fun'}
        if kinds & {'exp', 'pow'} or not kinds:
            ck.undecided('exp', subj, repr(g)[:200])
        else:
            ck.bad('exp', subj, t.where, 'the scalar part is %r' % NC.scal(sc), facts_of(t))
        return
    kind, fz = args[0]
    nn = NC({w: dict(c) for w, c in fz})
    n2 = N.gp(nn, nn)
    want = sq if kind == 'cosh' else -sq
    if n2 != want:
        ck.bad('exp', subj, t.where, 'the argument of %s squares to %r, specified is %r' % (kind, n2, want), facts_of(t))
        return
    C = NC.scal({((('fun', kind, fz), 1),): Fraction(1)})
    S = {((('fun', {'cos': 'sin', 'cosh': 'sinh'}[kind], fz), 1),): Fraction(1)}
    spec = C + A.scale(cmul(S, cinv(nn.scalar())))
    if g == spec:
        ck.ok('exp', subj, repr(g)[:160])
    else:
        ck.bad('exp', subj, t.where, 'computes %r, specified is %r' % (g, spec), facts_of(t))


class NoFacts:
    facts = ()


def raw(W, t, K, a, x):
    """normal form of a tested value without the facts of the path (but for A**2 being a scalar)"""
    class F:
        facts = [(c, v) for c, v in t.facts if isinstance(c, T) and c.op == 'is_scalar']
    N = norm(W, F, K, a)
    r = N.nf(x) if isinstance(x, V) else None
    return r
