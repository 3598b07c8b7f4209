"""Shared by the rules that interpret the code over a whole small algebra (sa.conc)."""
from sa.vals import *
from sa.vals import V
from sa.interp import Interp, PyRaise, is_notimpl
from sa.gamodel import *
from sa.conc import *
from sa.judge import facts_of
from sa.report import Check


def show_c(c):
    def at(a):
        if a[0] == 'a':
            return str(a[1])
        if a[0] == 'g':
            return 'g%d%d' % (a[1], a[2])
        if a[0] == 'f':
            return '%s(%s)' % (a[1], ','.join(str(x[1]) for x in a[2]))
        if a[0] == 'd':
            return 'D[%s]%s' % (','.join(str(x[1]) for x in a[2]), a[1][1])
        if a[0] in ('cinv', 'sqrt'):
            return '%s(%s)' % ('1/' if a[0] == 'cinv' else 'sqrt', show_c(dict(a[1])))
        return str(a)
    s = ' + '.join('%s%s' % (q, ''.join('*%s%s' % (at(a), '' if e == 1 else '^%d' % e) for a, e in m)) for m, q in sorted(c.items(), key=repr))
    return s if len(s) < 220 else s[:217] + '...'


def show(x):
    if isinstance(x, dict) and (not x or all(isinstance(k, tuple) and all(isinstance(i, int) for i in k) for k in x)):
        return ' + '.join('(%s)%s' % (show_c(c), 'e' + ''.join(str(i + 1) for i in w) if w else '') for w, c in sorted(x.items(), key=lambda t: (len(t[0]), t[0]))) or '0'
    if isinstance(x, dict):
        return show_c(x)
    if isinstance(x, list):
        return '[%s]' % ', '.join(show(y) for y in x)
    return str(x)


class NoRead(Exception):
    pass


class Wrong(NoRead):
    """the value is definitely of another kind than the property says"""


def definite(v, *ok):
    """the kind of a value that is known not to be one of the repository classes `ok`, or None"""
    if isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and not any(c in v.cls.mro() for c in ok):
        return 'a ' + v.cls.name
    if isinstance(v, Const) and (v.v is None or isinstance(v.v, str)):
        return repr(v.v)
    return None


class Alg:
    """one algebra configuration"""

    def __init__(self, ck, W, n, g, coords=None, name='', steps=6000000, H=Conc, **hk):
        self.ck, self.W, self.n, self.name = ck, W, n, name
        self.H = H(W, n, g, coords, **hk)
        self.I = ck.use(Interp(W.prog, self.H, max_steps=steps, max_traces=60, max_choices=4000))

    # readers -----------------------------------------------------------
    def mv(self, v):
        d = self.H.lin(v)
        if d is None:
            k = definite(v, self.W.Mv) or ('a ' + v.kind if isinstance(v, Seq) else None)
            raise Wrong('%s, not a multivector' % k) if k else NoRead(short(v, 300))
        return d

    def scal(self, v):
        if isinstance(v, Obj):
            d = self.H.lin(v)
            if d is None:
                k = definite(v, self.W.Mv)
                raise Wrong('%s, not a scalar' % k) if k else NoRead(short(v, 300))
            if any(w and clear(c) for w, c in d.items()):
                raise Wrong('%s, not a scalar' % show(d))
            return d.get((), {})
        c = self.H.coef(v)
        if c is None:
            k = definite(v)
            raise Wrong('%s, not a scalar' % k) if k else NoRead(short(v, 300))
        return c

    def mat(self, v):
        M = self.H.mcoef(v) if isinstance(v, Obj) else None
        if M is None:
            raise NoRead(short(v, 300))
        return M

    def seq(self, f):
        def rd(v):
            if not isinstance(v, Seq) or not v.concrete():
                k = definite(v)
                raise Wrong('%s, not a sequence' % k) if k else NoRead(short(v, 300))
            return [f(x) for x in v.items]
        return rd

    def boolean(self, v):
        if isinstance(v, Const) and (isinstance(v.v, bool) or v.v in (0, 1, None)):
            return bool(v.v)
        if isinstance(v, T) and v.op == 'nc':
            raise NoRead(short(v))
        raise NoRead(short(v))

    def const(self, v):
        if isinstance(v, Const):
            return v.v
        raise NoRead(short(v))

    # -------------------------------------------------------------------
    def eq(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            ka = list(a) + list(b)
            if all(isinstance(k, tuple) and all(isinstance(i, int) for i in k) for k in ka) and (any(isinstance(v, dict) for v in list(a.values()) + list(b.values()))):
                return deq(a, b)
            if any(isinstance(v, dict) for v in list(a.values()) + list(b.values())):
                return set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)
            return ceq(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def check(self, rule, subj, entry, read, want, where=None):
        """entry(m) -> value; read(value) == want on every path"""
        ck = self.ck
        subj = subj + (' [%s]' % self.name if self.name else '')
        try:
            traces = self.I.run(entry)
        except RecursionError:
            ck.undecided(rule, subj, 'recursion')
            return
        n = 0
        if not (traces and all(t.kind == 'raise' for t in traces)):
            for t in traces:
                und = [c for c, v in t.facts if not isinstance(c, Const)]
                if und:        # a path that rests on an undecided condition
                    ck.undecided(rule, subj, 'undecided condition %s' % short(und[0], 200))
                    return
        for t in traces:
            if t.kind == 'raise':
                ck.bad(rule, subj, t.where or where, 'raises %s' % t.exc, facts_of(t))
                return
            if t.kind != 'return' or is_notimpl(t.value):
                ck.undecided(rule, subj, '%s %s' % (t.kind, t.exc or ''))
                return
            try:
                got = read(t.value)
            except Wrong as e:
                ck.bad(rule, subj, where or t.where or 'galgebra', 'is %s' % e, facts_of(t))
                return
            except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
                ck.undecided(rule, subj, 'value %s' % short(t.value, 200))
                return
            except NoRead as e:
                ck.undecided(rule, subj, 'value %s' % e)
                return
            if not self.eq(got, want):
                ck.bad(rule, subj, where or t.where or 'galgebra', 'is %s, by definition %s' % (self.pp(got), self.pp(want)), facts_of(t))
                return
            n += 1
        if n:
            ck.ok(rule, subj)
        else:
            ck.undecided(rule, subj, 'no path')

    def pp(self, x):
        if isinstance(x, dict) and x and all(isinstance(v, dict) for v in x.values()):
            return show(x)
        if isinstance(x, dict):
            return show_c(x)
        if isinstance(x, (list, tuple)):
            s = '[%s]' % ', '.join(self.pp(y) for y in x)
            return s if len(s) < 600 else s[:597] + '...'
        return str(x)

    def rejects(self, rule, subj, entry, control=None):
        """every path raises; the control must return"""
        ck = self.ck
        subj = subj + (' [%s]' % self.name if self.name else '')
        tr = self.I.run(entry)
        if any(t.kind not in ('return', 'raise') for t in tr):
            ck.undecided(rule, subj, [t.exc for t in tr if t.kind not in ('return', 'raise')][0])
            return
        rets = [t for t in tr if t.kind == 'return' and not is_notimpl(t.value)]
        if rets:
            if len(tr) > 1 and rets[0].facts:
                ck.undecided(rule, subj, 'undecided condition %s' % short(rets[0].facts[0][0], 200))
                return
            ck.bad(rule, subj, rets[0].where or 'galgebra', 'is accepted and returns %s' % short(rets[0].value, 120), facts_of(rets[0]))
            return
        if control is not None and not any(t.kind == 'return' for t in self.I.run(control)):
            ck.undecided(rule, subj, 'the accepted case does not return either')
            return
        ck.ok(rule, subj, 'raises %s' % tr[0].exc if tr else '')


def gatoms(n, ortho):
    return [[({} if ortho and i != j else {((('g', min(i, j), max(i, j)), 1),): Fraction(1)}) for j in range(n)] for i in range(n)]


def where(W, cls, name):
    r = cls.lookup(name)
    return '%s:%d (%s.%s)' % (r[0].module.rel, r[1].lineno, cls.name, name) if r else None
