"""C15: inverses and quotients."""
from fractions import Fraction
from sa.vals import *
from sa.vals import V
from sa.interp import Interp
from sa.gamodel import *
from sa.judge import TraceNorm, compare, facts_of, unwrap
from sa.ncpoly import NC, Ctx, cconst, cmul, cinv
from rules.c04 import X

rev = lambda k: -1 if (k * (k - 1) // 2) % 2 else 1
ginv = lambda k: -1 if k % 2 else 1


class Diag:
    """product of factors; every factor is a linear map, diagonal in the grade, of a known multivector"""

    def __init__(self, n, x):
        self.n, self.x = n, x
        self.cc = tuple(rev(k) * ginv(k) for k in range(n + 1))

    def const(self, v):
        if isinstance(v, Const) and num(v.v):
            return Fraction(v.v)
        if isinstance(v, T) and v.op in ('id', 'obj', 'mv'):
            return self.const(v.args[0])
        if isinstance(v, T) and v.op == 'neg':
            c = self.const(v.args[0])
            return None if c is None else -c
        return None

    def ev(self, v):
        """(coefficient vector over grades, tuple of factors (atom, vector)) : list of factors, or None"""
        while isinstance(v, T) and v.op in ('id', 'tobase', 'toblade', 'obj', 'mv') and v.args:
            v = v.args[0]
        one = tuple(Fraction(1) for _ in range(self.n + 1))
        if isinstance(v, V) and v.key() == self.x.key():
            return [('x', one)]
        if isinstance(v, Obj) and v.fields.get('obj') is not None and v.fields['obj'].key() == self.x.key():
            return [('x', one)]
        if not isinstance(v, T):
            return None
        op, a = v.op, v.args
        if op == 'gp' and self.const(a[0]) is None and self.const(a[1]) is None:
            l, r = self.ev(a[0]), self.ev(a[1])
            if l is None or r is None:
                return None
            return self.fuse(l + r)
        if op in ('gp', '*', '/'):
            for s, w in ((a[1], a[0]),) + (((a[0], a[1]),) if op != '/' else ()):
                c = self.const(s)
                if c is not None:
                    r = self.ev(w)
                    return None if r is None else self.on(r, lambda k: c if op != '/' else 1 / c)
            return None
        if op == 'neg':
            r = self.ev(a[0])
            return None if r is None else self.on(r, lambda k: -1)
        if op in ('rev', 'ginv', 'even', 'odd', 'grade'):
            r = self.ev(a[0])
            if r is None:
                return None
            if op == 'grade':
                g = a[1].v if isinstance(a[1], Const) else None
                if g is None:
                    return None
                f = lambda k: 1 if k == g else 0
            else:
                f = {'rev': rev, 'ginv': ginv, 'even': lambda k: 1 - k % 2, 'odd': lambda k: k % 2}[op]
            return self.on(r, f, linear_only=op != 'scale')
        if op in ('+', '-'):
            l, r = self.ev(a[0]), self.ev(a[1])
            if l is None or r is None:
                return None
            if len(l) != 1 or len(r) != 1 or l[0][0] != r[0][0] or l[0][0] == '?':
                return [('?', None)]
            s = 1 if op == '+' else -1
            return [(l[0][0], tuple(p + s * q for p, q in zip(l[0][1], r[0][1])))]
        return None

    def on(self, fs, f, linear_only=False):
        vec = [f(k) for k in range(self.n + 1)]
        if fs[0][0] == '?':
            return fs
        if len(set(vec)) == 1:      # a scalar multiple
            return [(fs[0][0], tuple(p * vec[0] for p in fs[0][1]))] + fs[1:]
        if len(fs) == 1:
            return [(fs[0][0], tuple(p * q for p, q in zip(fs[0][1], vec)))]
        return [('?', None)]

    # x * conj(x) is X; x * conj(x) * rev(X) is Y
    def fuse(self, fs):
        fs = list(fs)
        changed = True
        while changed:
            changed = False
            for i in range(len(fs) - 1):
                a, b = fs[i], fs[i + 1]
                if '?' in (a[0], b[0]):
                    continue
                if a[0] == 'x' and b[0] == 'x' and len(set(a[1])) == 1 and b[1] == tuple(Fraction(c) for c in self.cc):
                    fs[i:i + 2] = [('X', tuple(Fraction(a[1][0]) for _ in range(self.n + 1)))]
                    changed = True
                    break
                if a[0] == 'X' and len(set(a[1])) == 1 and b[0] == 'X' and self.n == 5 and self.same(b[1], rev, (0, 3, 4)):
                    fs[i:i + 2] = [('Y', tuple(Fraction(a[1][0]) for _ in range(self.n + 1)))]
                    changed = True
                    break
        return fs

    def same(self, vec, f, supp):
        return all(vec[k] == f(k) for k in supp if k <= self.n)


# numerator of the closed-form inverse: [(atom, grade -> sign, grades in which the atom can have a part)]
def hitzer(n):
    allg = tuple(range(n + 1))
    cc = lambda k: rev(k) * ginv(k)
    X_ = tuple(k for k in allg if rev(k) * ginv(k) == 1)          # x conj(x) is invariant under conjugation
    if n in (1, 2):
        return [('x', cc, allg)]
    if n == 3:
        return [('x', cc, allg), ('X', rev, X_)]
    if n == 4:
        return [('x', cc, allg), ('X', lambda k: -1 if k in (3, 4) else 1, X_)]
    if n == 5:
        return [('x', cc, allg), ('X', rev, X_), ('Y', lambda k: -1 if k in (1, 4) else 1, (0, 1, 4))]


class LoopHooks(MvHooks):
    pass


def split_quot(v):
    """numerator, denominator of the returned value"""
    while isinstance(v, T) and v.op in ('id', 'obj', 'mv', 'toblade'):
        v = v.args[0]
    if isinstance(v, T) and v.op == '/' and len(v.args) == 2:
        return v.args
    if isinstance(v, T) and v.op in ('*', 'gp') and len(v.args) == 2:
        for a, b in (v.args, v.args[::-1]):
            if isinstance(a, T) and a.op == '/' and isinstance(a.args[0], Const) and a.args[0].v == 1:
                return b, a.args[1]
            if isinstance(a, T) and a.op == '**' and isinstance(a.args[1], Const) and a.args[1].v == -1:
                return b, a.args[0]
    return None


def run(ck, W):
    ck.rule('inv', 'on every returning path of inv, the value times the multivector is 1 given the facts the path has established, and every other multivector is rejected')
    ck.rule('shirokov', 'the value of shirokov_inverse is the adjoint of the characteristic-polynomial recursion divided by the determinant, for every dimension; a zero determinant is rejected')
    ck.rule('hitzer', 'the numerator of the closed form has the defining sign in every grade its factors can have, the denominator is the scalar part of x times the numerator; zero denominators and larger dimensions are rejected')
    ck.rule('quotient', 'division by a multivector multiplies by its inverse from the right, division of a scalar by a multivector multiplies its inverse')
    a = T('A.obj', typ=EXPR)

    # -- inv
    H = MvHooks(W, skip={'Mv.inv'})
    I = ck.use(Interp(W.prog, H))
    tr = I.run(lambda m: m.call_method(W.mv('A', W.ga('ga')), 'inv', [], {}, None))
    nret = nraise = 0
    for k, t in enumerate(tr):
        subj = 'inv, path %d' % k
        if t.kind == 'raise':
            nraise += 1
            ck.ok('inv', subj, 'rejects: %s' % t.exc)
            continue
        if t.kind != 'return':
            ck.undecided('inv', subj, t.exc)
            continue
        nret += 1
        for side, v in (('A*inv', X('gp', a, t.value)), ('inv*A', X('gp', t.value, a))):
            r, txt = compare(W, t, v, Const(1))
            s2 = '%s (%s)' % (subj, side)
            if r == 'VIOLATED':
                ck.bad('inv', s2, t.where, txt, facts_of(t))
            elif r == 'undecided':
                d = nonscalar_denominator(t)
                if d is not None:
                    ck.bad('inv', s2, t.where, 'divides by %s, which the path has found not to be a scalar' % short(d), facts_of(t))
                else:
                    ck.undecided('inv', s2, txt)
            else:
                ck.ok('inv', s2, txt)
    if nret and not nraise:
        ck.bad('inv', 'inv rejects', tr[0].where, 'no path of inv rejects a multivector whose square and A*rev(A) are not scalar')
    # -- shirokov
    for n in range(0, 9):
        H = MvHooks(W)
        I = ck.use(Interp(W.prog, H))
        tr = I.run(lambda m: m.call_method(W.mv('A', W.ga('ga', n=Const(n))), 'shirokov_inverse', [], {}, None))
        N = 2 ** ((n + 1) // 2)
        nr = 0
        for k, t in enumerate(tr):
            subj = 'shirokov_inverse, n = %d, %s' % (n, 'path %d' % k)
            if t.kind == 'raise':
                ok = any(zero_fact(c, v) for c, v in t.facts)
                (ck.ok if ok else ck.bad)(*(('shirokov', subj, 'rejects zero determinant') if ok else ('shirokov', subj, t.where, 'raises %s' % t.exc, facts_of(t))))
                continue
            if t.kind != 'return':
                ck.undecided('shirokov', subj, t.exc)
                continue
            nr += 1
            U = a
            adj = Const(-1)
            for j in range(1, N):
                C = X('*', Const(Fraction(N, j), True), X('scal', U))
                adj = X('-', C, U)
                U = X('neg', X('gp', a, adj))
            det = X('neg', X('scal', U))
            r, txt = compare(W, t, t.value, X('/', adj, det))
            if not any(zero_fact(c, not v) for c, v in t.facts) and r != 'undecided':
                ck.bad('shirokov', subj, t.where, 'returns without having established that the determinant is nonzero', facts_of(t))
            elif r == 'VIOLATED':
                ck.bad('shirokov', subj, t.where, txt[:600], facts_of(t))
            elif r == 'undecided':
                ck.undecided('shirokov', subj, txt)
            else:
                ck.ok('shirokov', subj, '%d iterations' % (N - 1))
    # -- hitzer
    for n in range(0, 9):
        H = MvHooks(W)
        I = ck.use(Interp(W.prog, H))
        tr = I.run(lambda m: m.call_method(W.mv('A', W.ga('ga', n=Const(n))), 'hitzer_inverse', [], {}, None))
        for k, t in enumerate(tr):
            subj = 'hitzer_inverse, n = %d, path %d' % (n, k)
            if n > 5:
                if t.kind == 'return':
                    ck.bad('hitzer', subj, t.where, 'returns a value: there is no closed form for more than five dimensions')
                else:
                    ck.ok('hitzer', subj, 'rejected') if t.kind == 'raise' else ck.undecided('hitzer', subj, t.exc)
                continue
            if t.kind == 'raise':
                ok = any(zero_fact(c, v) for c, v in t.facts)
                if ok:
                    ck.ok('hitzer', subj, 'rejects zero denominator')
                else:
                    ck.bad('hitzer', subj, t.where, 'raises %s' % t.exc, facts_of(t))
                continue
            if t.kind != 'return':
                ck.undecided('hitzer', subj, t.exc)
                continue
            q = split_quot(t.value)
            if q is None:
                ck.undecided('hitzer', subj, short(t.value))
                continue
            num_, den = q
            D = Diag(n, a)
            # denominator
            dq = TraceNorm(W, t)
            d1 = dq.nf(den)
            if dq.unknown:
                ck.undecided('hitzer', subj + ' denominator', short(dq.unknown[0]))
            elif d1 != dq.nf(X('scal', X('gp', a, num_))) and d1 != dq.nf(X('scal', X('gp', num_, a))) and d1 != dq.nf(X('gp', a, num_)):
                ck.bad('hitzer', subj + ' denominator', t.where, 'the denominator is not the scalar part of x times the numerator', facts_of(t))
            else:
                ck.ok('hitzer', subj + ' denominator')
            if not any(zero_fact(c, not v) for c, v in t.facts):
                ck.bad('hitzer', subj + ' zero test', t.where, 'returns without having established that the denominator is nonzero', facts_of(t))
            if n == 0:
                f = TraceNorm(W, t)
                g = f.nf(num_)
                if f.unknown:
                    ck.undecided('hitzer', subj, short(num_))
                elif g.is_scalar() and set(g.scalar()) == {()}:
                    ck.ok('hitzer', subj, repr(g))
                else:
                    ck.bad('hitzer', subj, t.where, 'the numerator is %r for n = 0' % g)
                continue
            got = D.ev(num_)
            exp = hitzer(n)
            if got is None or len(got) != len(exp) or any(g[0] not in (e[0], '?') for g, e in zip(got, exp)):
                if got is not None and len(got) < len(exp):
                    ck.bad('hitzer', subj, t.where, 'the numerator has %d of the %d factors of the closed form for n = %d' % (len(got), len(exp), n), facts_of(t))
                elif got is not None and all(g[0] == 'x' for g in got) and n <= 2:
                    ck.bad('hitzer', subj, t.where, 'the numerator is a product of %d factors; one is needed for n = %d' % (len(got), n), facts_of(t))
                else:
                    ck.undecided('hitzer', subj, short(num_, 200))
                continue
            # the numerator is determined up to a number (it cancels): every factor up to one
            bad = None
            for (at, vec), (_, f, supp) in zip(got, exp):
                if at == '?':
                    continue
                sc = vec[0] / f(0)
                for k2 in supp:
                    if k2 <= n and vec[k2] != sc * f(k2) or sc == 0:
                        bad = 'the factor of %s has coefficient %s in grade %d, the closed form for n = %d needs %s' % (
                            {'x': 'x', 'X': 'x*conj(x)', 'Y': 'x*conj(x)*rev(x*conj(x))'}[at], vec[k2], k2, n, sc * f(k2))
                        break
                if bad:
                    break
            if bad:
                ck.bad('hitzer', subj, t.where, bad, facts_of(t))
            elif any(g[0] == '?' for g in got):
                ck.undecided('hitzer', subj, short(num_, 200))
            else:
                ck.ok('hitzer', subj, ' * '.join('%s%s' % (g[0], tuple(map(str, g[1]))) for g in got))
    # -- quotients
    b = T('B.obj', typ=EXPR)
    for nm, f, spec in (('A / B', lambda m, g: m.binop('/', W.mv('A', g), W.mv('B', g), None), X('gp', a, T('mvinv', b, typ=W.Mv))),
                        ('s / A', lambda m, g: m.binop('/', T('s', typ=EXPR), W.mv('A', g), None), X('*', T('s', typ=EXPR), T('mvinv', a, typ=W.Mv)))):
        H = MvHooks(W, skip={'Mv.__truediv__', 'Mv.__rtruediv__'})
        I = ck.use(Interp(W.prog, QuotHooks(W)))
        for t in I.run(lambda m: f(m, W.ga('ga'))):
            c = Ctx()
            c.central.add(T('s', typ=EXPR).key())
            r, txt = compare(W, t, t.value, spec, c) if t.kind == 'return' else ('VIOLATED', 'raises %s' % t.exc) if t.kind == 'raise' else ('undecided', t.exc)
            (ck.bad('quotient', nm, t.where, txt) if r == 'VIOLATED' else ck.ok('quotient', nm, txt) if r == 'holds' else ck.undecided('quotient', nm, txt))
    return ck.finish('Value numbering of the inverse functions: inv on every path under the facts the path has tested; the recursion of Shirokov unrolled for every '
                     'dimension and compared in the free algebra; the closed forms of Hitzer by the sign of every grade of every factor.', min_decided=3)


def nonscalar_denominator(t):
    non = {unwrap(c.args[0]).key() for c, v in t.facts if isinstance(c, T) and c.op == 'is_scalar' and not v and isinstance(c.args[0], V)}
    stack, seen = [t.value], set()
    while stack:
        v = stack.pop()
        if not isinstance(v, T) or id(v) in seen:
            continue
        seen.add(id(v))
        d = v.args[1] if v.op == '/' and len(v.args) == 2 else v.args[0] if v.op == '**' and isinstance(v.args[1], Const) and num(v.args[1].v) and v.args[1].v < 0 else None
        if d is not None and isinstance(d, V) and isinstance(unwrap(d), V) and unwrap(d).key() in non:
            return d
        stack += [x for x in v.args if isinstance(x, T)]
    return None


class QuotHooks(MvHooks):
    def binop(self, m, op, l, r, node):
        if op == '/' and isinstance(l, (Obj, Const, T)) and isinstance(r, Obj):
            return None
        return super().binop(m, op, l, r, node)


def zero_fact(c, v):
    """the path has established that something is zero"""
    if isinstance(c, T) and c.op in ('==', '!=') and len(c.args) == 2:
        for x in c.args:
            if isinstance(x, Const) and num(x.v) and x.v == 0:
                return v if c.op == '==' else not v
    if isinstance(c, T) and c.op == 'is_zero':
        return v
    return False
