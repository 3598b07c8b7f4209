"""Value numbering in the free geometric algebra.

Abstract values (sa.vals) describing multivector-valued or scalar-valued
expressions are put into a canonical form: a linear combination of words of
atoms with commutative coefficients.  The geometric product is free and
associative; every other operation is opaque except for the identities that
*define* it (bilinearity, associativity of the outer product, reverse is an
involutive antiautomorphism, grade involution is an automorphism, grade
selection is linear ...).  Two values with the same canonical form are equal in
every geometric algebra; the converse is only used when every atom of both
forms is in the known vocabulary.
"""
from fractions import Fraction

from .vals import V, Const, T, Obj, Each, Seq, Dct, num

NAMES = {}         # display name of an atom (one per key: names never distinguish atoms)
ONE = ()            # the empty commutative monomial / the empty word


# ------------------------------------------------------------------ commutative coefficients
def cconst(x):
    return {ONE: Fraction(x)} if x else {}


def cadd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        n = r.get(k, 0) + s * v
        if n:
            r[k] = n
        else:
            r.pop(k, None)
    return r


_mm = {}


def cmono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        r = _mm[k] = cmono_mul_(m1, m2)
    return r


def cmono_mul_(m1, m2):
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=repr))


def cmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = cmono_mul(m1, m2)
            # square roots: (sqrt p)^2 = p ;  inverse atoms (1/p)
            extra = cconst(1)
            if any(x[0][0] in ('sqrt', 'cinv') for x in m):
                keep = []
                for at, e in m:
                    if at[0] == 'sqrt' and abs(e) >= 2:
                        q, rem = divmod(abs(e), 2)
                        sg = 1 if e > 0 else -1
                        p = dict(at[1])
                        for _ in range(q):
                            extra = cmul(extra, p if sg > 0 else cinv(p))
                        if rem:
                            keep.append((at, sg))
                    elif at[0] == 'cinv' and e < 0:
                        p = dict(at[1])
                        for _ in range(-e):
                            extra = cmul(extra, p)
                    else:
                        keep.append((at, e))
                m = tuple(keep)
            for m3, c3 in extra.items():
                mm = cmono_mul(m, m3)
                n = r.get(mm, 0) + c1 * c2 * c3
                if n:
                    r[mm] = n
                else:
                    r.pop(mm, None)
    return r


def cfreeze(a):
    return tuple(sorted(a.items(), key=repr))


def cinv(a):
    if not a:
        return {((('zerodiv',), 1),): Fraction(1)}
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((at, -e) for at, e in m): 1 / c}
    # take the leading coefficient out so that proportional denominators agree
    lead = sorted(a.items(), key=repr)[0][1]
    b = {m: c / lead for m, c in a.items()}
    return {((('cinv', cfreeze(b)), 1),): 1 / lead}


def csqrt(a):
    if not a:
        return {}
    if list(a) == [ONE]:
        c = a[ONE]
        if c > 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return cconst(Fraction(n, d))
    return {((('sqrt', cfreeze(a)), 1),): Fraction(1)}


# ------------------------------------------------------------------ words
class NC:
    """linear combination of words"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def scal(c):
        return NC({ONE: c})

    @staticmethod
    def word(*atoms):
        return NC({tuple(atoms): cconst(1)})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = cadd(r.get(k, {}), v)
        return NC(r)

    def __neg__(self):
        return self.scale(cconst(-1))

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return NC({k: cmul(v, c) for k, v in self.t.items()})

    def is_scalar(self):
        return all(k == ONE for k in self.t)

    def scalar(self):
        return self.t.get(ONE, {})

    def freeze(self):
        return tuple(sorted(((k, cfreeze(v)) for k, v in self.t.items()), key=repr))

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.freeze())

    def atoms(self):
        out = set()

        def c(p):
            for m in p:
                for at, e in m:
                    cat(at)

        def cat(at):
            out.add(at)
            if at[0] in ('sqrt', 'cinv'):
                c(dict(at[1]))
            elif at[0] == 'sc':
                w(at[1])
            elif at[0] == 'fun':
                for x in at[2:]:
                    for k, v in x:
                        w(k)
                        c(dict(v))

        def w(k):
            for at in k:
                out.add(at)
                b = at[0]
                if b[0] in ('wedge',):
                    for x in b[1]:
                        w(x)
                elif b[0] in ('hd', 'lc', 'rc', 'gr', 'mvfun'):
                    for x in b[1:]:
                        if isinstance(x, tuple):
                            w(x)
        for k, v in self.t.items():
            w(k)
            c(v)
        return out

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for k, v in sorted(self.t.items(), key=repr):
            cs = show_c(v)
            ks = '*'.join(show_atom(a) for a in k)
            out.append(cs if not ks else (ks if cs == '1' else ('-' + ks if cs == '-1' else '%s*%s' % (cs if len(v) == 1 else '(' + cs + ')', ks))))
        return ' + '.join(out).replace('+ -', '- ')


def show_c(v):
    o = []
    for m, c in sorted(v.items(), key=repr):
        ms = '*'.join(show_cat(a) + ('' if e == 1 else '^%s' % e) for a, e in m)
        o.append(str(c) if not ms else (ms if c == 1 else ('-' + ms if c == -1 else '%s*%s' % (c, ms))))
    return ' + '.join(o).replace('+ -', '- ') or '0'


def show_cat(a):
    if a[0] == 'x':
        return str(a[1])
    if a[0] == 'sc':
        return '<%s>' % '*'.join(show_atom(x) for x in a[1])
    if a[0] == 'sqrt':
        return 'sqrt(%s)' % show_c(dict(a[1]))
    if a[0] == 'cinv':
        return '1/(%s)' % show_c(dict(a[1]))
    if a[0] == 'fun':
        return '%s(%s)' % (a[1], ', '.join(repr(NC({k: dict(v) for k, v in x})) for x in a[2:]))
    return str(a)


def show_word(w):
    return '*'.join(show_atom(x) for x in w) or '1'


def show_atom(at):
    b, r, g = at
    if b[0] == 'x':
        s = str(b[1])
    elif b[0] == 'wedge':
        s = '(' + '^'.join(show_word(x) for x in b[1]) + ')'
    elif b[0] in ('hd', 'lc', 'rc'):
        s = '(%s %s %s)' % (show_word(b[1]), {'hd': '|', 'lc': '<', 'rc': '>'}[b[0]], show_word(b[2]))
    elif b[0] == 'gr':
        s = '<%s>_%s' % (show_word(b[2]), b[1])
    else:
        s = str(b)
    if r:
        s = 'rev(%s)' % s
    if g:
        s = 'invol(%s)' % s
    return s


def rev_sign(r):
    return -1 if (r * (r - 1) // 2) % 2 else 1


class Ctx:
    """what is known about the atoms on a path"""

    def __init__(self):
        self.central = set()      # keys of values which are scalars
        self.grade = {}           # key -> known homogeneous grade
        self.parity = {}          # key -> 0/1 known parity
        self.names = {}
        self.rewrites = {}        # (atom, atom) -> NC     for adjacent atoms
        self.subst = {}           # key -> NC


IDENT = {'expand', 'simplify', 'trigsimp', 'together', 'cancel', 'factor', 'ratsimp', 'powsimp', 'radsimp',
         'sympify', 'nsimplify', 'collect', 'doit'}


class Norm:
    """normaliser; collects the values it does not understand in self.unknown and
    sympy-level products of two multivectors in self.badprod"""

    def __init__(self, ctx=None, hook=None):
        self.ctx = ctx or Ctx()
        self.hook = hook
        self.unknown = []
        self.badprod = []
        self.memo = {}

    # -- atoms ---------------------------------------------------------
    def atom(self, v, name=None):
        k = v.key() if isinstance(v, V) else v
        if k in self.ctx.subst:
            return self.ctx.subst[k]
        nm = NAMES.get(k)
        if nm is None:
            nm = name or self.ctx.names.get(k) or (v.name if isinstance(v, Obj) else _short(v))
            if nm.endswith('.obj'):
                nm = nm[:-4]
            NAMES[k] = nm
        if k in self.ctx.central:
            return NC.scal({((('x', nm, k), 1),): Fraction(1)})
        return NC.word((('x', nm, k), False, False))

    def base_grade(self, b):
        if b[0] == 'x':
            return self.ctx.grade.get(b[2])
        if b[0] == 'gr' and isinstance(b[1], int):
            return b[1]
        if b[0] == 'wedge':
            gs = [self.word_grade(w) for w in b[1]]
            return None if any(g is None for g in gs) else sum(gs)
        return None

    def word_grade(self, w):
        if len(w) == 0:
            return 0
        if len(w) == 1:
            return self.base_grade(w[0][0])
        return None

    def base_parity(self, b):
        g = self.base_grade(b)
        if g is not None:
            return g % 2
        if b[0] == 'x':
            return self.ctx.parity.get(b[2])
        if b[0] in ('hd', 'lc', 'rc'):
            a, c = self.word_parity(b[1]), self.word_parity(b[2])
            return None if a is None or c is None else (a + c) % 2
        return None

    def word_parity(self, w):
        p = 0
        for at in w:
            q = self.base_parity(at[0])
            if q is None:
                return None
            p += q
        return p % 2

    # -- involutions ------------------------------------------------------
    def ginv_word(self, w):
        sg = 1
        out = []
        for b, r, g in w:
            p = self.base_parity(b)
            if p is not None:
                if p:
                    sg = -sg
                out.append((b, r, g))
            elif b[0] == 'wedge':
                nw = []
                for x in b[1]:
                    s, y = self.ginv_word(x)
                    sg *= s
                    nw.append(y)
                out.append((('wedge', tuple(nw)), r, g))
            elif b[0] in ('hd', 'lc', 'rc'):
                s1, y1 = self.ginv_word(b[1])
                s2, y2 = self.ginv_word(b[2])
                sg *= s1 * s2
                out.append(((b[0], y1, y2), r, g))
            else:
                out.append((b, r, not g))
        return sg, tuple(out)

    def rev_word(self, w):
        sg = 1
        out = []
        for b, r, g in reversed(w):
            gr = self.base_grade(b)
            if gr is not None:
                sg *= rev_sign(gr)
                out.append((b, r, g))
            elif b[0] == 'wedge':
                nw = []
                for x in reversed(b[1]):
                    s, y = self.rev_word(x)
                    sg *= s
                    nw.append(y)
                out.append((('wedge', tuple(nw)), r, g))
            elif b[0] in ('hd', 'lc', 'rc'):
                s1, y1 = self.rev_word(b[1])
                s2, y2 = self.rev_word(b[2])
                sg *= s1 * s2
                out.append((({'hd': 'hd', 'lc': 'rc', 'rc': 'lc'}[b[0]], y2, y1), r, g))
            else:
                out.append((b, not r, g))
        return sg, tuple(out)

    def lin(self, x, f):
        """apply f: word -> NC linearly"""
        out = NC()
        for w, c in x.t.items():
            out = out + f(w).scale(c)
        return out

    def ginv(self, x):
        def f(w):
            s, y = self.ginv_word(w)
            return self.red(y).scale(cconst(s))
        return self.lin(x, f)

    def rev(self, x):
        def f(w):
            s, y = self.rev_word(w)
            return self.red(y).scale(cconst(s))
        return self.lin(x, f)

    def even(self, x):
        return (x + self.ginv(x)).scale(cconst(Fraction(1, 2)))

    def odd(self, x):
        return (x - self.ginv(x)).scale(cconst(Fraction(1, 2)))

    # -- products -----------------------------------------------------------
    def red(self, w):
        """apply the path's rewrites for adjacent atoms"""
        if self.ctx.rewrites:
            for i in range(len(w) - 1):
                r = self.ctx.rewrites.get((w[i], w[i + 1]))
                if r is not None:
                    return self.gp(self.gp(NC({w[:i]: cconst(1)}), r), NC({w[i + 2:]: cconst(1)}))
        return NC({w: cconst(1)})

    def gp(self, a, b):
        out = NC()
        for w1, c1 in a.t.items():
            for w2, c2 in b.t.items():
                out = out + self.red(w1 + w2).scale(cmul(c1, c2))
        return out

    def bil(self, kind, a, b):
        out = NC()
        for w1, c1 in a.t.items():
            for w2, c2 in b.t.items():
                out = out + self.prod_words(kind, w1, w2).scale(cmul(c1, c2))
        return out

    def prod_words(self, kind, w1, w2):
        if kind == 'wedge':
            if not w1 or not w2:
                return NC({w1 + w2: cconst(1)})
            parts = ()
            for w in (w1, w2):
                if len(w) == 1 and w[0][0][0] == 'wedge' and not w[0][1] and not w[0][2]:
                    parts += w[0][0][1]
                else:
                    parts += (w,)
            return NC.word((('wedge', parts), False, False))
        if kind == 'hd':
            if not w1 or not w2:
                return NC()
            return NC.word((('hd', w1, w2), False, False))
        if kind == 'lc':
            if not w1:
                return NC({w2: cconst(1)})
            if not w2:
                return self.sc_word(w1)
            return NC.word((('lc', w1, w2), False, False))
        if kind == 'rc':
            if not w2:
                return NC({w1: cconst(1)})
            if not w1:
                return self.sc_word(w2)
            return NC.word((('rc', w1, w2), False, False))
        if kind == 'sp':
            return self.sc_word(w1 + w2)
        raise AssertionError(kind)

    def sc_word(self, w):
        """scalar part of a word, canonical under cyclic rotation, reversal and involution"""
        w0 = self.red(w)
        if set(w0.t) != {w}:
            return self.lin(w0, self.sc_word)
        if not w:
            return NC.scal(cconst(1))
        g = self.word_grade(w)
        if g is not None and g > 0:
            return NC()
        p = self.word_parity(w)
        if p == 1:
            return NC()
        if len(w) == 1 and w[0][0][0] in ('gr',):
            b = w[0][0]
            if b[1] == 0:
                return self.sc_word(b[2])
        if len(w) == 1 and w[0][0][0] in ('lc', 'rc'):
            return self.sc_word(w[0][0][1] + w[0][0][2])
        cands = []
        for s0, base in ((1, w), self.rev_word(w)):
            for i in range(len(base)):
                rot = base[i:] + base[:i]
                cands.append((repr(rot), rot, s0))
                s2, gi = self.ginv_word(rot)
                cands.append((repr(gi), gi, s0 * s2))
        cands.sort(key=lambda x: (x[0], -x[2]))
        best = cands[0]
        if any(c[0] == best[0] and c[2] != best[2] for c in cands):
            return NC()
        # reduce adjacent pairs that only meet cyclically
        return NC.scal({((('sc', best[1]), 1),): Fraction(best[2])})

    def sc(self, x):
        return self.lin(x, self.sc_word)

    def gr(self, r, x):
        def f(w):
            g = self.word_grade(w)
            if g is not None and isinstance(r, int):
                return NC({w: cconst(1)}) if g == r else NC()
            if r == 0:
                return self.sc_word(w)
            return NC.word((('gr', r, w), False, False))
        return self.lin(x, f)

    # -- values -----------------------------------------------------------------
    def nf(self, v):
        k = v.key()
        r = self.memo.get(k)
        if r is None:
            r = self.nf_(v)
            self.memo[k] = r
        return r

    def inv(self, x, v):
        if x.is_scalar():
            return NC.scal(cinv(x.scalar()))
        self.unknown.append(v)
        return self.atom(v)

    def fun(self, name, v, *args):
        """central function of normal forms"""
        return NC.scal({((('fun', name) + tuple(self.nf(a).freeze() for a in args), 1),): Fraction(1)})

    def pow(self, b, e, v):
        if isinstance(e, int):
            if e >= 0 and e <= 12:
                out = NC.scal(cconst(1))
                for _ in range(e):
                    out = self.gp(out, b)
                return out
            if e < 0 and b.is_scalar():
                return self.pow(NC.scal(cinv(b.scalar())), -e, v)
        if e == Fraction(1, 2) and b.is_scalar():
            return NC.scal(csqrt(b.scalar()))
        if e == Fraction(-1, 2) and b.is_scalar():
            return NC.scal(cinv(csqrt(b.scalar())))
        if isinstance(e, Fraction) and e.denominator == 2 and 0 < e < 12 and b.is_scalar():
            out = cconst(1)
            for _ in range(e.numerator):
                out = cmul(out, csqrt(b.scalar()))
            return NC.scal(out)
        return None

    def nf_(self, v):
        if self.hook is not None:
            h = self.hook(self, v)
            if h is not None:
                return h
        if v.key() in self.ctx.subst:
            return self.ctx.subst[v.key()]
        if isinstance(v, Const):
            if num(v.v):
                return NC.scal(cconst(v.v))
            self.unknown.append(v)
            return self.atom(v)
        if isinstance(v, Obj):
            o = v.fields.get('obj')
            if o is not None and v.fresh:
                return self.nf(o)
            if o is not None:
                return self.atom(o, v.name)
            return self.atom(v)
        if isinstance(v, T):
            op, a = v.op, v.args
            if op == '+' and len(a) == 2:
                return self.nf(a[0]) + self.nf(a[1])
            if op == '-' and len(a) == 2:
                return self.nf(a[0]) - self.nf(a[1])
            if op == 'neg':
                return -self.nf(a[0])
            if op == '*' and len(a) == 2:
                x, y = self.nf(a[0]), self.nf(a[1])
                if not x.is_scalar() and not y.is_scalar():
                    self.badprod.append(v)
                return self.gp(x, y)
            if op == 'gp':
                return self.gp(self.nf(a[0]), self.nf(a[1]))
            if op == '/' and len(a) == 2:
                y = self.nf(a[1])
                if y.is_scalar():
                    return self.nf(a[0]).scale(cinv(y.scalar()))
                self.unknown.append(v)
                return self.atom(v)
            if op == '**' and len(a) == 2:
                b, e = self.nf(a[0]), self.nf(a[1])
                if e.is_scalar() and (not e.t or list(e.scalar()) == [ONE]):
                    ev = e.scalar().get(ONE, Fraction(0))
                    ev = int(ev) if ev.denominator == 1 else ev
                    r = self.pow(b, ev, v)
                    if r is not None:
                        return r
                elif b.is_scalar() and e.is_scalar():
                    return NC.scal({((('fun', 'pow', b.freeze(), e.freeze()), 1),): Fraction(1)})
                self.unknown.append(v)
                return self.atom(v)
            if op in ('wedge', 'hd', 'lc', 'rc', 'sp'):
                return self.bil(op, self.nf(a[0]), self.nf(a[1]))
            if op == 'rev':
                return self.rev(self.nf(a[0]))
            if op == 'ginv':
                return self.ginv(self.nf(a[0]))
            if op == 'even':
                return self.even(self.nf(a[0]))
            if op == 'odd':
                return self.odd(self.nf(a[0]))
            if op == 'scal':
                return self.sc(self.nf(a[0]))
            if op == 'grade':
                r = a[1]
                rk = r.v if isinstance(r, Const) and num(r.v) else repr(r.key())
                return self.gr(rk, self.nf(a[0]))
            if op in ('id', 'tobase', 'toblade', 'obj', 'mv'):
                return self.nf(a[0])
            if op == 'sqrt':
                x = self.nf(a[0])
                if x.is_scalar():
                    return NC.scal(csqrt(x.scalar()))
            if op == 'absv':
                return self.fun('abs', v, a[0])
            if op == 'fun1':
                return self.fun(a[0], v, *a[1:])
            if op == 'call' and a and hasattr(a[0], 'name'):
                nm = a[0].name.split('.')[-1]
                if nm in IDENT and len(a) >= 2:
                    return self.nf(a[1])
                if nm in ('sqrt',) and len(a) == 2:
                    x = self.nf(a[1])
                    if x.is_scalar():
                        return NC.scal(csqrt(x.scalar()))
                if nm in ('sin', 'cos', 'sinh', 'cosh', 'exp', 'Abs', 'abs', 'log') and len(a) == 2:
                    return self.fun({'Abs': 'abs'}.get(nm, nm), v, a[1])
            if op == 'mcall' and a[0] in IDENT and len(a) >= 2:
                return self.nf(a[1])
            if op == 'sum' and len(a) == 1:
                # sum over a representative element: linear
                x = self.nf(a[0])
                return NC({(('sumw',), False, False, ) and k: c for k, c in x.t.items()}) if False else self.opaque('sum', v, x)
            if op in self.ATOMS or (v.key() in self.ctx.names):
                return self.atom(v)
            if not a:
                return self.atom(v)
        self.unknown.append(v)
        return self.atom(v)

    ATOMS = ()

    def opaque(self, name, v, x):
        if x.is_scalar():
            return NC.scal({((('fun', name, x.freeze()), 1),): Fraction(1)})
        return NC.word((('x', name, (name, x.freeze())), False, False))


def _short(v):
    from .vals import short
    return short(v, 60) if isinstance(v, V) else str(v)
