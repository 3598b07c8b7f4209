"""Comparing the value of an abstract trace with a specified value."""
from fractions import Fraction

from .vals import *
from .vals import V
from .ncpoly import Norm, Ctx, NC, cconst
from .gamodel import is_mv


def unwrap(v):
    while isinstance(v, T) and v.op in ('id', 'tobase', 'toblade', 'obj', 'mv') and v.args:
        v = v.args[0]
    if isinstance(v, Obj) and 'obj' in v.fields:
        v = v.fields['obj']
        return unwrap(v) if isinstance(v, T) and v.op in ('id', 'tobase', 'toblade', 'obj', 'mv') else v
    return v


def zero(c):
    return isinstance(c, Const) and num(c.v) and c.v == 0


def scalar_fact(c, val):
    """value known to be a scalar on this path (or None)"""
    if not val or not isinstance(c, T):
        return None
    if c.op == 'is_scalar':
        return c.args[0]
    if c.op == '==' and len(c.args) == 2:
        for a, b in (c.args, c.args[::-1]):
            if isinstance(a, T) and a.op == 'grades' and isinstance(b, Seq) and len(b.items) == 1 and zero(b.items[0]):
                return a.args[0]
            if isinstance(a, T) and a.op == 'attr' and a.args[1] == 'i_grade' and zero(b):
                return a.args[0]
    return None


class TraceNorm(Norm):
    """normaliser using the facts of one abstract trace"""

    def __init__(self, W, trace, ctx=None, hook=None):
        super().__init__(ctx, hook)
        self.W = W
        for c, val in trace.facts:
            x = scalar_fact(c, val)
            if x is not None:
                self.learn_scalar(unwrap(x))
            if val and isinstance(c, T) and c.op == '==' and len(c.args) == 2:
                for a, b in (c.args, c.args[::-1]):
                    if zero(b) and isinstance(a, T) and a.typ == 'sympy.Expr':
                        self.learn_zero(a)
                        break
            if val and isinstance(c, T) and c.op == 'is_zero':
                self.learn_zero(unwrap(c.args[0]))
            if val and isinstance(c, T) and c.op == 'is_vector':
                k = unwrap(c.args[0])
                if isinstance(k, V):
                    self.ctx.grade[k.key()] = 1
        self.memo.clear()

    def nf_(self, v):
        if isinstance(v, T) and v.op == 'mvinv':
            x = self.nf(v.args[0])
            if x.is_scalar() and x.t:
                return self.inv(x, v)
            # inverse of a scalar multiple: (c A)^-1 = A^-1 / c
            if len(x.t) == 1:
                (w, c), = x.t.items()
                from .ncpoly import cinv
                if len(w) > 0:
                    out = NC.scal(cinv(c))
                    for at in reversed(w):
                        out = self.gp(out, NC.word((('x', '1/%s' % (at[0][1],), ('inv', at)), False, False)))
                    return out
            return NC.word((('x', 'inv(..)', ('inv', x.freeze())), False, False))
        return super().nf_(v)

    def learn_scalar(self, x):
        if not isinstance(x, V):
            return
        n = Norm(self.ctx, self.hook)
        f = n.nf(x)
        if len(f.t) == 1:
            (w, c), = f.t.items()
            if len(w) == 1 and w[0][0][0] == 'x' and not n.unknown:
                self.ctx.central.add(w[0][0][2])
                return
            if len(w) == 2 and not n.unknown:
                # A B is a scalar (B is A, or the reverse of A): then it equals <A B>
                self.ctx.rewrites[(w[0], w[1])] = n.sc_word(w)
                if w[0] != w[1]:
                    self.ctx.rewrites[(w[1], w[0])] = n.sc_word(w)

    def learn_zero(self, x):
        n = Norm(self.ctx, self.hook)
        f = n.nf(x)
        if n.unknown:
            return
        if len(f.t) == 1:
            (w, c), = f.t.items()
            if len(c) == 1:
                (m, q), = c.items()
                if w == () and len(m) == 1 and m[0][0][0] == 'x':
                    self.ctx.subst[m[0][0][2]] = NC()
                elif w == () and len(m) == 1:
                    self.zero_atoms.add(m[0][0])
                elif m == () and len(w) == 1 and w[0][0][0] == 'x':
                    self.ctx.subst[w[0][0][2]] = NC()

    @property
    def zero_atoms(self):
        if not hasattr(self, '_za'):
            self._za = set()
        return self._za

    def drop_zero(self, x):
        if not self.zero_atoms:
            return x
        return NC({w: {m: q for m, q in c.items() if not any(a in self.zero_atoms and e > 0 for a, e in m)} for w, c in x.t.items()})


def compare(W, trace, got, spec, ctx=None, hook=None, names=None):
    """('holds' | 'VIOLATED' | 'undecided', text)"""
    N = TraceNorm(W, trace, ctx, hook)
    if names:
        N.ctx.names.update(names)
    if not isinstance(got, V):
        return 'undecided', 'no value'
    g = N.drop_zero(N.nf(got))
    unk = list(N.unknown)
    s = N.drop_zero(N.nf(spec))
    if g == s:
        return 'holds', repr(g)[:160]
    if unk:
        return 'undecided', 'value outside the analysed vocabulary: %s' % short(unk[0], 100)
    return 'VIOLATED', 'computes %s, specified is %s' % (repr(g)[:220], repr(s)[:220])


def facts_of(trace, n=14):
    return ['path: %s is %s' % (short(c, 120), v) for c, v in trace.facts[:n]]
