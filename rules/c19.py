"""C19: projection, reflection, rotation, cross product, norms and magnitudes; blade and versor predicates."""
import itertools
from fractions import Fraction
from sa.vals import *
from sa.vals import V
from sa.interp import Interp, is_notimpl
from sa.gamodel import *
from sa.judge import TraceNorm, compare, facts_of, unwrap, zero
from sa.ncpoly import NC, Ctx, cconst, cinv, csqrt, cmul, cadd
from rules.c04 import X


def has_true(t, f):
    return any(v and f(c) for c, v in t.facts)


class H(MvHooks):
    """projections etc.: exp, grade decomposition, qform of the operands are primitive"""

    def __init__(self, W, skip=(), grades=None):
        super().__init__(W, skip)
        self.gr = grades

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        W = self.W
        if q == 'Mv.exp' and isinstance(f, Bound) and q not in self.skip:
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.fn.node.args.args]
                return self.mvt(m, 'mvexp', f.self_, b[ps[1]])
        if q == 'Ga.grade_decomposition' and self.gr and len(args) == 1:
            return Dct([(Const(k), self.mvt(m, 'grade', args[0], Const(k))) for k in self.gr])
        if q == 'abs_with_hint' and q not in self.skip:
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.node.args.args]
                return T('absh', b[ps[0]], b[ps[1]], typ=EXPR)
        if q == 'square_root_of_expr' and q not in self.skip:
            return T('sroot', args[0], typ=EXPR)
        if q == 'Mv.norm2' and q not in self.skip and isinstance(f, Bound):
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.fn.node.args.args]
                return T('norm2', f.self_, b[ps[1]], typ=EXPR)
        if q == 'Mv.mag2' and q not in self.skip and isinstance(f, Bound):
            return T('mag2', f.self_, typ=EXPR)
        return super().call(m, f, args, kw, node)

    def ext(self, m, name, args, kw, node):
        if name.split('.')[-1] == 'Abs' and len(args) == 1:
            return T('absv', args[0], typ=EXPR)
        if name.split('.')[-1] == 'abs' and len(args) == 1 and isinstance(args[0], (T, Const)) and not is_mv(self.W, args[0]):
            return T('absv', args[0], typ=EXPR)
        return super().ext(m, name, args, kw, node)


def blade_hook(a, b):
    """inverse of the blade B under mvinv: rev(B)/<rev(B) B>; exponentials of a bivector reverse by negation"""
    def hook(N, v):
        if isinstance(v, T) and v.op == 'mvinv' and unwrap(v.args[0]).key() == b.key():
            return N.nf(X('/', X('rev', b), X('scal', X('gp', X('rev', b), b))))
        if isinstance(v, T) and v.op == 'mvexp':
            x = N.nf(v.args[0])
            return NC.word((('x', 'exp[%r]' % x, ('mvexp', x.freeze(), v.args[1].key())), False, False))
        if isinstance(v, T) and v.op in ('rev', 'mvinv') and isinstance(unwrap(v.args[0]), T) and unwrap(v.args[0]).op == 'mvexp' and v.op == 'mvinv':
            e = unwrap(v.args[0])
            return hook(N, T('mvexp', X('neg', e.args[0]), e.args[1]))
        return None
    return hook


def judge(ck, W, rule, subj, t, spec, ctx=None, hook=None):
    if t.kind != 'return':
        (ck.bad(rule, subj, t.where, 'raises %s' % t.exc, facts_of(t)) if t.kind == 'raise' else ck.undecided(rule, subj, t.exc))
        return
    r, txt = compare(W, t, t.value, spec, ctx, hook)
    if r == 'VIOLATED':
        ck.bad(rule, subj, t.where, txt, facts_of(t))
    elif r == 'holds':
        ck.ok(rule, subj, txt)
    else:
        ck.undecided(rule, subj, txt)


def run(ck, W):
    ck.rule('project', 'project_in_blade is (A < B) B^-1 on every returning path')
    ck.rule('reflect', 'reflect_in_blade is the sum over the grades r of (-1)**(r (s+1)) B A_r B^-1 for a blade B of grade s')
    ck.rule('guard', 'a returning path has established that the blade argument is a blade and that it is not null')
    ck.rule('rotate', 'rotate_multivector is exp(-t/2) A exp(t/2)')
    ck.rule('cross', 'cross is -I (u ^ v), and it is given only for two vectors of the same three-dimensional algebra')
    ck.rule('scalar', 'sp is the scalar part of the (reversed) product, qform is the scalar part of rev(A) A')
    ck.rule('norm', 'norm2 is |qform|, norm its root, mag2 the sum over the grades of |qform|, mag its root; a sign is only dropped where the path or the hint establishes it')
    ck.rule('blade', 'is_blade is False for zero and mixed-grade multivectors, True for scalars, vectors and versors of one grade, and otherwise decided by A ^ A = 0')
    ck.rule('versor', 'is_versor is True only if A rev(A) is a nonzero scalar and invol(A) X rev(A) is a vector for every vector X')
    for f in (projections, rotations, crossp, norms, predicates, roots):
        try:
            f(ck, W)
        except RecursionError:
            ck.undecided('guard', f.__name__, 'recursion')
    return ck.finish('Value numbering of the operations over the free geometric algebra, per path; grade of the blade and grades of the operand enumerated '
                     'where the definition has a grade-dependent sign.', min_decided=3)


def blade_guard(ck, W, subj, t, b):
    """facts of the path: B is a blade, qform(B) != 0"""
    isb = has_true(t, lambda c: isinstance(c, T) and c.op == 'is_blade')
    nz = False
    for c, v in t.facts:
        if isinstance(c, T) and c.op in ('==', '!=') and any(zero(x) for x in c.args) and v == (c.op == '!='):
            nz = True
        if isinstance(c, T) and c.op == 'is_zero' and not v:
            nz = True
    n2 = any('is_blade' in repr(c.key()) for c, v in t.facts if isinstance(c, V))
    if isb and nz:
        ck.ok('guard', subj)
    elif not isb and (not n2):
        ck.bad('guard', subj, t.where, 'returns a value without having tested that the argument is a blade', facts_of(t))
    elif not isb:
        ck.bad('guard', subj, t.where, 'returns a value for an argument that is not a blade', facts_of(t))
    elif any(zero(x) for c, v in t.facts if isinstance(c, T) and c.op in ('==', '!=') for x in c.args if isinstance(x, V)):
        ck.bad('guard', subj, t.where, 'returns a value for a null blade', facts_of(t))
    else:
        ck.bad('guard', subj, t.where, 'returns a value without having tested that the blade is not null', facts_of(t))


def projections(ck, W):
    a, b = T('A.obj', typ=EXPR), T('B.obj', typ=EXPR)
    binv = X('/', X('rev', b), X('scal', X('gp', X('rev', b), b)))
    if W.Mv.lookup('project_in_blade'):
        I = ck.use(Interp(W.prog, H(W)))

        def entry(m):
            g = W.ga('ga')
            return m.call_method(W.mv('A', g), 'project_in_blade', [W.mv('B', g)], {}, None)
        for t in I.run(entry):
            if t.kind == 'return':
                blade_guard(ck, W, 'project_in_blade', t, b)
                judge(ck, W, 'project', 'project_in_blade', t, X('gp', X('lc', a, b), binv), None, blade_hook(a, b))
    if W.Mv.lookup('reflect_in_blade'):
        for s in range(0, 7):
            gr = range(0, 7)
            I = ck.use(Interp(W.prog, H(W, grades=gr)))

            def entry(m):
                g = W.ga('ga')
                return m.call_method(W.mv('A', g), 'reflect_in_blade', [W.mv('B', g, i_grade=Const(s))], {}, None)
            spec = Const(0)
            for r in gr:
                x = X('gp', X('gp', b, T('grade', a, Const(r), typ=EXPR)), binv)
                spec = X('+', spec, X('neg', x) if r * (s + 1) % 2 else x)
            for t in I.run(entry):
                subj = 'reflect_in_blade, blade of grade %d' % s
                if t.kind == 'return':
                    blade_guard(ck, W, subj, t, b)
                    judge(ck, W, 'reflect', subj, t, spec, None, blade_hook(a, b))
                elif t.kind != 'raise':
                    ck.undecided('reflect', subj, t.exc)


def rotations(ck, W):
    a, th = T('A.obj', typ=EXPR), T('th.obj', typ=EXPR)
    if not W.Mv.lookup('rotate_multivector'):
        return
    for hint in (None, '-', '+'):
        I = ck.use(Interp(W.prog, H(W)))

        def entry(m):
            g = W.ga('ga')
            return m.call_method(W.mv('A', g), 'rotate_multivector', [W.mv('th', g)] + ([Const(hint)] if hint else []), {}, None)
        h = Const(hint or '-')
        E = lambda s: T('mvexp', X('*', Const(Fraction(s, 2), True), th), h, typ=W.Mv)
        spec = X('gp', X('gp', E(-1), a), E(1))
        for t in I.run(entry):
            judge(ck, W, 'rotate', 'rotate_multivector, hint %s' % hint, t, spec, None, blade_hook(a, th))


def crossp(ck, W):
    f = W.prog.func('mv', 'cross')
    if f is None:
        return
    u, v = T('u.obj', typ=EXPR), T('v.obj', typ=EXPR)
    i = T('ga.i.obj', typ=EXPR)
    for same in (True, False):
        for n in (None, 2, 3, 4):
            I = ck.use(Interp(W.prog, H(W)))

            def entry(m):
                g = W.ga('ga', **({'n': Const(n)} if n else {}))
                h = g if same else W.ga('gb', **({'n': Const(n)} if n else {}))
                return m.call(m.module_name(W.Mv.module, 'cross'), [W.mv('u', g), W.mv('v', h)], {}, None)
            for t in I.run(entry):
                subj = 'cross, %s algebra%s' % ('one' if same else 'two', '' if n is None else ', n = %d' % n)
                if t.kind == 'return':
                    # I is central in three dimensions
                    c = Ctx()
                    c.subst[i.key()] = NC.scal({((('x', 'I', ('I',)), 1),): Fraction(1)})
                    vec = {key for key in ('u', 'v') if any(vv and isinstance(cc, T) and cc.op == 'is_vector' and nm(cc.args[0]) == key for cc, vv in t.facts)}
                    if not same or n in (2, 4):
                        ck.bad('cross', subj, t.where, 'returns a value', facts_of(t))
                    elif len(vec) < 2:
                        ck.bad('cross', subj, t.where, 'returns a value without having tested that both operands are vectors', facts_of(t))
                    elif n == 3:
                        judge(ck, W, 'cross', subj, t, X('neg', X('gp', i, X('wedge', u, v))), c)
                    elif not any('n' in repr(cc) for cc, vv in t.facts if isinstance(cc, T) and cc.op in ('==', '!=')):
                        ck.bad('cross', subj, t.where, 'returns a value for every dimension', facts_of(t))
                elif t.kind == 'raise':
                    if same and n == 3 and all(vv for cc, vv in t.facts if isinstance(cc, T) and cc.op == 'is_vector'):
                        ck.bad('cross', subj, t.where, 'raises %s for two vectors' % t.exc, facts_of(t))
                    else:
                        ck.ok('cross', subj, 'rejected')
                else:
                    ck.undecided('cross', subj, t.exc)


def nm(v):
    v = unwrap(v) if not isinstance(v, Obj) else v
    return v.name if isinstance(v, Obj) else str(v.op).split('.')[0] if isinstance(v, T) else None


def norms(ck, W):
    a, b = T('A.obj', typ=EXPR), T('B.obj', typ=EXPR)
    q = X('scal', X('gp', X('rev', a), a))
    mk = lambda: W.mv('A', W.ga('ga'))
    I = ck.use(Interp(W.prog, H(W, skip={'Mv.qform'})))
    for t in I.run(lambda m: m.call_method(mk(), 'qform', [], {}, None)):
        judge(ck, W, 'scalar', 'qform', t, q)
    for sw in (None, '', 'rev', 'x'):
        I = ck.use(Interp(W.prog, H(W, skip={'Mv.sp'})))

        def entry(m):
            g = W.ga('ga')
            return m.call_method(W.mv('A', g), 'sp', [W.mv('B', g)] + ([] if sw is None else [Const(sw)]), {}, None)
        for t in I.run(entry):
            if sw == 'x':
                (ck.ok if t.kind == 'raise' else ck.undecided)('scalar', 'sp with an unknown switch', 'rejected') if t.kind != 'return' else \
                    ck.bad('scalar', 'sp with an unknown switch', t.where, 'returns %s' % short(t.value), facts_of(t))
            else:
                judge(ck, W, 'scalar', 'sp, switch %r' % sw, t, X('scal', X('gp', X('rev', a) if sw == 'rev' else a, b)))
    # norm2
    for hint in (None, '0', '+', '-'):
        I = ck.use(Interp(W.prog, H(W, skip={'Mv.norm2'})))
        for t in I.run(lambda m: m.call_method(mk(), 'norm2', [] if hint is None else [Const(hint)], {}, None)):
            posdef = has_true(t, lambda c: 'is_positive_definite' in repr(c))
            subj = 'norm2, hint %s%s' % (hint, ', positive definite metric' if posdef else '')
            hh = Const(hint or '0')
            if posdef and t.kind == 'return':
                r, txt = compare(W, t, t.value, q, None, absh)
                if r != 'holds':
                    r, txt = compare(W, t, t.value, T('absh', q, hh, typ=EXPR), None, absh)
                if r == 'VIOLATED':
                    ck.bad('norm', subj, t.where, txt, facts_of(t))
                else:
                    (ck.ok if r == 'holds' else ck.undecided)('norm', subj, txt)
            else:
                judge(ck, W, 'norm', subj, t, T('absh', q, hh, typ=EXPR), None, absh)
    # norm
    for hint in (None, '0', '+', '-'):
        I = ck.use(Interp(W.prog, H(W, skip={'Mv.norm'})))
        n2 = T('norm2', W.mv('A', W.ga('ga')), Const(hint or '0'), typ=EXPR)
        for t in I.run(lambda m: m.call_method(mk(), 'norm', [] if hint is None else [Const(hint)], {}, None)):
            nn = has_true(t, lambda c: 'is_nonnegative' in repr(c) or 'is_positive' in repr(c))
            subj = 'norm, hint %s%s' % (hint, ', nonnegative root' if nn else '')
            r0 = ('VIOLATED', 'raises %s' % t.exc) if t.kind == 'raise' else ('undecided', t.exc)
            if t.kind == 'return':
                for sp in ([X('sroot', n2)] if nn else []) + [X('absv', X('sroot', n2))]:
                    r0 = compare(W, t, t.value, sp, None, absh)
                    if r0[0] != 'VIOLATED':
                        break
            r, txt = r0
            if r == 'VIOLATED':
                ck.bad('norm', subj, t.where, txt, facts_of(t))
            else:
                (ck.ok if r == 'holds' else ck.undecided)('norm', subj, txt)
    for n in range(0, 6):
        I = ck.use(Interp(W.prog, H(W, skip={'Mv.mag2'})))
        spec = Const(0)
        for k in range(n + 1):
            spec = X('+', spec, X('absv', T('norm2', T('grade', a, Const(k), typ=W.Mv), Const('0'), typ=EXPR)))
        for t in I.run(lambda m: m.call_method(W.mv('A', W.ga('ga', n=Const(n))), 'mag2', [], {}, None)):
            judge(ck, W, 'norm', 'mag2, n = %d' % n, t, spec, None, absh)
    I = ck.use(Interp(W.prog, H(W)))
    for t in I.run(lambda m: m.call_method(mk(), 'mag', [], {}, None)):
        judge(ck, W, 'norm', 'mag', t, T('sqrt', T('mag2', W.mv('A', W.ga('ga')), typ=EXPR), typ=EXPR), None, absh)


def absh(N, v):
    """absolute values: | |x| | = |x|, |qform| = norm2, hints '+' and '-' are +x and -x, '0' is |x|"""
    if not isinstance(v, T):
        return None
    if v.op == 'absh':
        h = v.args[1]
        x = N.nf(v.args[0])
        if isinstance(h, Const) and h.v in ('0', '+', '-') and x.is_scalar():
            return absnf(x) if h.v == '0' else NC.scal({((('fun', 'abs_hint' + h.v, x.freeze()), 1),): Fraction(1)})
        return None
    if v.op == 'absv' or (v.op == 'call' and len(v.args) == 2 and getattr(v.args[0], 'name', '').split('.')[-1] in ('Abs', 'abs')):
        x = N.nf(v.args[-1])
        return absnf(x)
    if v.op == 'norm2':
        h = v.args[1]
        k = unwrap(v.args[0])
        x = N.sc(N.gp(N.rev(N.nf(v.args[0])), N.nf(v.args[0])))
        if isinstance(h, Const) and h.v == '0':
            return absnf(x)
        if isinstance(h, Const) and h.v in ('+', '-'):
            return NC.scal({((('fun', 'abs_hint' + h.v, x.freeze()), 1),): Fraction(1)})
        return NC.scal({((('fun', 'norm2', x.freeze(), h.key() if isinstance(h, V) else h), 1),): Fraction(1)})
    if v.op == 'mag2':
        return NC.scal({((('fun', 'mag2', N.nf(v.args[0]).freeze()), 1),): Fraction(1)})
    if v.op == 'sroot':
        return NC.scal({((('fun', 'root', N.nf(v.args[0]).freeze()), 1),): Fraction(1)})
    return None


def absnf(x):
    c = x.scalar()
    if x.is_scalar() and len(c) == 1:
        (m, q), = c.items()
        if len(m) == 1 and m[0][0][0] == 'fun' and m[0][0][1] in ('abs', 'mag2') and m[0][1] == 1:
            return x.scale(cconst(1 if q > 0 else -1)) if q < 0 else x
        if not m:
            return NC.scal(cconst(abs(q)))
    if x.is_scalar() and not c:
        return NC()
    if x.is_scalar() and c:
        lead = sorted(c.items(), key=repr)[0][1]
        if lead < 0:
            x = -x
    return NC.scal({((('fun', 'abs', x.freeze()), 1),): Fraction(1)})


# ---------------------------------------------------------------- predicates
def predicates(ck, W):
    A = lambda: W.mv('A', W.ga('ga'), i_grade=T('A.i_grade', typ='builtins.int'), blade_flg=NONE, versor_flg=NONE)
    a = T('A.obj', typ=EXPR)
    I = ck.use(Interp(W.prog, H(W, skip={'Mv.is_blade'})))

    def wws(N):
        r = [N.nf(X('wedge', x, y)) for x in (a, X('rev', a), X('ginv', a)) for y in (a, X('rev', a), X('ginv', a))]
        return r + [-x for x in r]

    def classify(c):
        """name of the elementary condition, and whether it is negated"""
        if not isinstance(c, T):
            return None
        r = repr(c)
        if c.op in ('is', 'is_', 'isnone', '==') and 'i_grade' in r and 'None' in r:
            return 'mixed', False
        if c.op in ('isnot', 'is_not', '!=') and 'i_grade' in r and 'None' in r:
            return 'mixed', True
        if c.op == 'is_versor':
            return 'versor', False
        if c.op in ('is_zero',):
            N = TraceNorm(W, FakeTrace)
            x = N.nf(c.args[0])
            if x == N.nf(a):
                return 'zero', False
            if N.unknown:
                return None
            if x in wws(N):
                return 'ww', False
            return ('other', False) if plain(x) else None
        if c.op in ('==', '!=') and any(zero(x) for x in c.args) and 'i_grade' not in r:
            x = [x for x in c.args if not zero(x)]
            if len(x) == 1:
                N = TraceNorm(W, FakeTrace)
                y = N.nf(x[0])
                if N.unknown:
                    return None
                if y == N.nf(a):
                    return 'zero', c.op == '!='
                if y in wws(N):
                    return 'ww', c.op == '!='
                if plain(y):
                    return 'other', c.op == '!='
            return None
        if c.op in ('<', '<=', '>', '>=', '==', '!=') and 'i_grade' in r and len(c.args) == 2:
            return 'grade', c
        return None
    # concrete models: (mixed, grade, zero, versor, A^A = 0)
    models = []
    for mixed in (True, False):
        for g in ((None,) if mixed else (0, 1, 2, 3, 4, 5)):
            for zr in (False, True):
                for ver in (False, True):
                    for ww in (False, True):
                        if zr and (ver or not ww):
                            continue
                        if zr and mixed:
                            continue
                        if g == 0 and not zr and (ww or not ver):
                            continue
                        if g is not None and g % 2 and not ww:
                            continue
                        # another product of A with itself may vanish or not
                        for oth in (False, True):
                            if not (zr and not oth):
                                models.append((mixed, g, zr, ver, ww, oth))

    def holds(c, mdl):
        k = classify(c)
        mixed, g, zr, ver, ww, oth = mdl
        if k is None:
            return None
        if k[0] == 'grade':
            if mixed:
                return 'skip'
            l, r = [g if 'i_grade' in repr(x) else (x.v if isinstance(x, Const) else None) for x in c.args]
            if l is None or r is None:
                return None
            return {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r, '==': l == r, '!=': l != r}[c.op]
        return {'mixed': mixed, 'zero': zr, 'versor': ver, 'ww': ww, 'other': oth}[k[0]] != k[1]

    def spec(mdl):
        mixed, g, zr, ver, ww, oth = mdl
        if mixed or zr:
            return False
        if g <= 1 or ver:
            return True
        return ww
    decide_pred(ck, W, 'blade', 'is_blade', I.run(lambda m: m.call_method(A(), 'is_blade', [], {}, None)), models, holds, spec)
    # is_versor
    I = ck.use(Interp(W.prog, H(W, skip={'Mv.is_versor'})))
    x = T('XOX')

    def mkA():
        g = W.ga('ga')
        g.fields['_XOX'] = Obj('XOX', W.Mv, fields={'Ga': g, 'obj': T('XOX.obj', typ=EXPR), 'is_blade_rep': TRUE})
        return W.mv('A', g, blade_flg=NONE, versor_flg=NONE)
    xo = T('XOX.obj', typ=EXPR)

    def ctx():
        c = Ctx()
        c.grade[xo.key()] = 1
        return c

    def vclass(c):
        if not isinstance(c, T) or c.op not in ('is_scalar', 'is_zero', 'is_vector', '==', '!='):
            return None
        neg = c.op == '!='
        if c.op in ('==', '!='):
            o = [y for y in c.args if not zero(y)]
            if len(o) != 1:
                return None
            op, y = 'is_zero', o[0]
        else:
            op, y = c.op, c.args[0]
        N = TraceNorm(W, FakeTrace, ctx())
        z = N.nf(y)
        if N.unknown:
            return None
        vv = {N.nf(X('gp', a, X('rev', a))): 'l', N.nf(X('gp', X('rev', a), a)): 'r'}
        if z in vv:
            return {'is_scalar': 'sc', 'is_zero': 'zr'}.get(op) and ({'is_scalar': 'sc', 'is_zero': 'zr'}[op], neg)
        sw = [N.nf(X('gp', X('gp', X('ginv', a), xo), X('rev', a))), N.nf(X('gp', X('gp', a, xo), X('rev', X('ginv', a)))),
              N.nf(X('gp', X('gp', X('rev', a), xo), X('ginv', a))), N.nf(X('gp', X('gp', X('rev', X('ginv', a)), xo), a))]
        sw += [-y for y in sw]
        if op == 'is_vector' and z in sw:
            return 'vec', neg
        if op == 'is_vector' and plain(z) and all(any(at[0][0] == 'x' and at[0][1] == 'XOX' for at in w) for w in z.t):
            return 'other', neg
        return None
    models = [(sc, zr, vec, oth) for oth in (True, False) for sc in (True, False) for zr in (True, False) for vec in (True, False) if not (zr and not sc) and not (zr and vec)]
    # (a null A may still map vectors to vectors: the zero test is then the one that decides)
    models += [(True, True, True, True), (True, True, True, False)]

    def vholds(c, mdl):
        k = vclass(c)
        if k is None:
            return None
        return {'sc': mdl[0], 'zr': mdl[1], 'vec': mdl[2], 'other': mdl[3]}[k[0]] != k[1]
    decide_pred(ck, W, 'versor', 'is_versor', I.run(lambda m: m.call_method(mkA(), 'is_versor', [], {}, None)), models, vholds, lambda md: md[0] and not md[1] and md[2])


def plain(x):
    """a nonzero combination of products of operands and their reverses and involutes"""
    return bool(x.t) and all(w and all(at[0][0] in ('x', 'wedge') and (at[0][0] == 'wedge' or at[0][1] in ('A', 'XOX')) for at in w) for w in x.t)


class FakeTrace:
    facts = ()


def decide_pred(ck, W, rule, subj, traces, models, holds, spec):
    """for every path and every model that takes it, the value is the specified one"""
    bad = und = None
    n = 0
    for t in traces:
        if t.kind == 'raise':
            if t.exc in ('AttributeError', 'NameError', 'UnboundLocalError', 'TypeError'):
                bad = bad or (t, 'fails with %s' % t.exc)
            continue
        if t.kind != 'return':
            und = t.exc
            continue
        v = t.value
        for md in models:
            ok, unk = True, False
            for c, val in t.facts:
                if isinstance(c, T) and c.op == '?':
                    continue
                h = holds(c, md)
                if h == 'skip':
                    ok = False
                    break
                if h is None:
                    unk = True
                    und = 'test %s' % short(c)
                    break
                if h != val:
                    ok = False
                    break
            if not ok or unk:
                continue
            if isinstance(v, Const) and isinstance(v.v, bool):
                g = v.v
            else:
                g = holds(v, md) if isinstance(v, T) else None
                if g in (None, 'skip'):
                    und = 'value %s' % short(v)
                    continue
            n += 1
            if g != spec(md) and bad is None:
                bad = (t, 'is %s for a multivector with %s' % (g, show_model(rule, md)))
    if bad:
        ck.bad(rule, subj, bad[0].where, bad[1], facts_of(bad[0]))
    elif und or not n:
        ck.undecided(rule, subj, und or 'no path')
    else:
        ck.ok(rule, subj, '%d combinations of elementary conditions' % n)


def show_model(rule, md):
    if rule == 'blade':
        return 'mixed grades' if md[0] else 'grade %s, %szero, %sversor, A^A %s 0' % (md[1], '' if md[2] else 'non', 'a ' if md[3] else 'not a ', '==' if md[4] else '!=')
    return 'A rev(A) %s, %s, image of a vector %s' % ('scalar' if md[0] else 'not scalar', 'zero' if md[1] else 'nonzero', 'a vector' if md[2] else 'not a vector')


# ---------------------------------------------------------------- roots and absolute values
def sign_facts(t, e, W):
    """what the path has established about the sign of e: subset of {'>=0', '<=0'}"""
    out = set()
    for c, v in t.facts:
        if not isinstance(c, T):
            continue
        if c.op == '==' and len(c.args) == 2 and any(isinstance(x, Const) and x.v is True for x in c.args):
            c = [x for x in c.args if not (isinstance(x, Const) and x.v is True)][0] if v else c
        if not isinstance(c, T) or not v:
            continue
        if c.op in ('>=', '>', '<=', '<') and len(c.args) == 2:
            l, r = c.args
            if zero(r) and isinstance(l, V) and l.key() == e.key():
                out.add('>=0' if c.op in ('>=', '>') else '<=0')
            if zero(l) and isinstance(r, V) and r.key() == e.key():
                out.add('<=0' if c.op in ('>=', '>') else '>=0')
        if c.op == 'attr' and isinstance(c.args[0], V) and c.args[0].key() == e.key():
            n = c.args[1]
            if n in ('is_nonnegative', 'is_positive', 'is_zero'):
                out.add('>=0')
            if n in ('is_nonpositive', 'is_negative', 'is_zero'):
                out.add('<=0')
            if n == 'is_number':
                out.add('num')
    return out


def roots(ck, W):
    md = W.prog.modules.get('galgebra.metric') or W.Metric.module
    if W.prog.func('metric', 'abs_with_hint') is not None:
        e = T('e', typ=EXPR)
        for hint in (None, '0', '+', '-', '?', ''):
            I = ck.use(Interp(W.prog, H(W, skip={'abs_with_hint'})))
            for k, t in enumerate(I.run(lambda m: m.call(m.module_name(md, 'abs_with_hint'), [e] + ([] if hint is None else [Const(hint)]), {}, None))):
                subj = 'abs_with_hint, hint %s, path %d' % (hint, k)
                sf = sign_facts(t, e, W)
                hh = hint or '0' if hint != '' else ''
                if t.kind == 'raise':
                    if hh in ('0', '+', '-'):
                        ck.bad('norm', subj, t.where, 'raises %s' % t.exc, facts_of(t))
                    else:
                        ck.ok('norm', subj, 'rejected')
                    continue
                if t.kind != 'return':
                    ck.undecided('norm', subj, t.exc)
                    continue
                N = TraceNorm(W, t, None, absh)
                N.ctx.central.add(e.key())
                g = N.nf(t.value)
                ee = N.nf(e)
                if N.unknown:
                    ck.undecided('norm', subj, short(N.unknown[0]))
                    continue
                kind = '+' if g == ee else '-' if g == -ee else '0' if g == absnf(ee) else None
                if kind is None:
                    ck.bad('norm', subj, t.where, 'returns %r' % g, facts_of(t))
                elif kind == '0' and (hh == '0' or sf):
                    ck.ok('norm', subj, '|e|')
                elif kind == '0':
                    ck.bad('norm', subj, t.where, 'the hint %r is not honoured' % hint, facts_of(t))
                elif kind == '+' and ('>=0' in sf or (hh == '+' and '<=0' not in sf)) or kind == '-' and ('<=0' in sf or (hh == '-' and '>=0' not in sf)):
                    ck.ok('norm', subj, kind + 'e')
                elif 'num' in sf:
                    ck.bad('norm', subj, t.where, 'the absolute value of a number is given as %se' % kind, facts_of(t))
                else:
                    ck.bad('norm', subj, t.where, 'the absolute value is given as %se; neither the sign nor the hint says so' % kind, facts_of(t))
    if W.prog.func('metric', 'square_root_of_expr') is not None:
        e = T('e', typ=EXPR)
        c0 = T('c', typ=EXPR)
        for exps in ((2,), (4,), (1,), (3,), (2, 4), (2, 1), (1, 2), (2, 3, 4), (2, 4, 6), ()):
            I = ck.use(Interp(W.prog, RootHooks(W, c0, exps)))
            for k, t in enumerate(I.run(lambda m: m.call(m.module_name(md, 'square_root_of_expr'), [e], {}, None))):
                subj = 'square_root_of_expr, factors with exponents %s, path %d' % (exps, k)
                if t.kind != 'return':
                    (ck.bad('norm', subj, t.where, 'raises %s' % t.exc, facts_of(t)) if t.kind == 'raise' else ck.undecided('norm', subj, t.exc))
                    continue
                isnum = has_true(t, lambda c: isinstance(c, T) and c.op == 'attr' and c.args[1] == 'is_number' and c.args[0].key() == e.key())
                ae = T('absh', e, Const('0'), typ=EXPR)
                if isnum or any(x % 2 for x in exps):
                    spec = ae
                else:
                    one = has_true(t, lambda c: isinstance(c, T) and c.op == '==' and any(isinstance(x, V) and x.key() == c0.key() for x in c.args)) or any(
                        not v and isinstance(c, T) and c.op == '!=' and any(isinstance(x, V) and x.key() == c0.key() for x in c.args) for c, v in t.facts)
                    spec = Const(1) if one else T('absv', c0, typ=EXPR)
                    for j, x in enumerate(exps):
                        spec = X('*', spec, X('**', T('f%d' % j, typ=EXPR), Const(x)))
                N = TraceNorm(W, t, None, rooth)
                if not isnum and not any(x % 2 for x in exps) and one:
                    N.ctx.subst[c0.key()] = NC.scal(cconst(1))
                for v in [e, c0] + [T('f%d' % j, typ=EXPR) for j in range(len(exps))]:
                    N.ctx.central.add(v.key())
                g = N.nf(X('**', t.value, Const(2)))
                s = N.nf(spec)
                if N.unknown:
                    ck.undecided('norm', subj, short(N.unknown[0]))
                elif g == s:
                    ck.ok('norm', subj, repr(g))
                else:
                    ck.bad('norm', subj, t.where, 'the square of the root is %r, expected %r' % (g, s), facts_of(t))


def rooth(N, v):
    if isinstance(v, T) and v.op == 'sroot':
        x = absh(N, T('absv', v.args[0], typ=EXPR))
        return NC.scal(csqrt(x.scalar()))
    if isinstance(v, T) and v.op == 'absh':
        # up to the sign the hint stands for
        return absh(N, T('absv', v.args[0], typ=EXPR))
    if isinstance(v, T) and v.op == 'id':
        return N.nf(v.args[0])
    return absh(N, v)


class RootHooks(H):
    def __init__(self, W, c0, exps):
        super().__init__(W, skip={'square_root_of_expr'})
        self.c0, self.exps = c0, exps

    def ext(self, m, name, args, kw, node):
        if name.split('.')[-1] == 'sqf_list':
            return Seq('tuple', [self.c0, Seq('list', [Seq('tuple', [T('f%d' % j, typ=EXPR), Const(x)]) for j, x in enumerate(self.exps)])])
        return super().ext(m, name, args, kw, node)

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q == 'square_root_of_expr' and args and isinstance(args[0], V) and args[0].key() != T('e', typ=EXPR).key():
            return T('sroot', args[0], typ=EXPR)
        return super().call(m, f, args, kw, node)
