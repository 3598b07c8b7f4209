"""Differential operators as finite lists of (coefficient, multi-index); shared by C09 and C22."""
from fractions import Fraction
from sa.vals import *
from sa.vals import V
from sa.interp import PyRaise
from sa.gamodel import *
from sa.judge import TraceNorm, unwrap, zero
from sa.ncpoly import NC, Ctx, cconst, cadd

SYM = 'sympy.Symbol'
x, y, z = (T(s, typ=SYM) for s in 'xyz')
KNOWN = {'x', 'y', 'z', 'dummy'}
NAMES = {v.key(): v.op for v in (x, y, z)}


def d(v, s, typ):
    return T('d', v, s, typ=typ)


class DopHooks(MvHooks):
    """derivatives of coefficients are primitive"""

    def distinct(self, m, l, r):
        if isinstance(l, T) and isinstance(r, T) and l.typ == SYM and r.typ == SYM and l.op in KNOWN and r.op in KNOWN:
            return True
        if isinstance(l, Dct) and isinstance(r, Dct) and l.open is None and r.open is None and not any(len(i) > 2 and i[2] for i in l.items + r.items):
            if len(l.items) != len(r.items):
                return True
            for i in l.items:
                it, dec = m.dict_find(r, i[0])
                if not dec:
                    return None
                if it is None:
                    return True
                e = m.static_eq(it[1], i[1])
                if not e:
                    return None if e is None else True
            return False
        return None

    def is_pdop(self, v):
        return isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and self.W.Pdop in v.cls.mro()

    def compare(self, m, op, l, r, node):
        if op in ('==', '!=') and self.is_pdop(l) and self.is_pdop(r) and self.W.Pdop.lookup('__eq__') is not None:
            try:
                c = m.call_method(l, '__eq__', [r], {}, node)
            except PyRaise:
                return None
            if isinstance(c, Const) and isinstance(c.v, bool):
                return Const(c.v == (op == '=='))
            return None
        if op in ('==', '!='):
            for a, b in ((l, r), (r, l)):
                if isinstance(a, T) and a.op in ('d',) or (isinstance(a, T) and a.typ == EXPR) or self.operand(a):
                    if zero(b):
                        # the coefficients are generic: a combination of them is zero only if it is so identically
                        N = DNorm(self.W, NoFacts, self.nctx())
                        n = N.nf(a)
                        if N.unknown:
                            return T(op, a, b, typ=BOOL)
                        return Const((not n.t) == (op == '=='))
        return super().compare(m, op, l, r, node)

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q == 'Ga.pDiff' and isinstance(f, Bound):
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.fn.node.args.args]
                return T('d', b[ps[1]], b[ps[2]], typ=self.W.Mv)
        if q == 'Mv._eval_derivative_n_times' and isinstance(f, Bound):
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.fn.node.args.args]
                n = b[ps[2]]
                if isinstance(n, Const) and isinstance(n.v, int) and 0 <= n.v < 8:
                    v = f.self_
                    for _ in range(n.v):
                        v = T('d', v, b[ps[1]], typ=self.W.Mv)
                    return v
        if q == 'Mv.diff' and isinstance(f, Bound) and len(args) == 1:
            return T('d', f.self_, args[0], typ=self.W.Mv)
        if q == 'Simp.applymv':
            return T('id', args[0], typ=self.W.Mv)
        if q == 'apply_function_list' and len(args) == 2:
            return T('id', args[1], typ=EXPR)
        if q in ('linear_expand_terms',) and len(args) == 1 and self.expand is not None:
            r = self.expand(unwrap(args[0]))
            if r is not None:
                return Seq('list', [Seq('tuple', list(p)) for p in r])
        return super().call(m, f, args, kw, node)

    expand = None
    nctx = staticmethod(Ctx)

    def ext(self, m, name, args, kw, node):
        if name.split('.')[-1] == 'Dummy':
            return T('dummy', m.fresh('dummy'), typ=SYM)
        if name == 'builtins.sorted' and args and isinstance(args[0], Seq) and not any(isinstance(i, Each) for i in args[0].items):
            return Seq('list', list(args[0].items), m.loopdepth)     # some permutation: the order of the terms does not matter
        if name.split('.')[-1] == 'diff' and name.startswith('sympy') and len(args) >= 2 and not kw:
            v = args[0]
            rest = list(args[1:])
            while rest:
                s = rest.pop(0)
                n = 1
                if rest and isinstance(rest[0], Const) and isinstance(rest[0].v, int):
                    n = rest.pop(0).v
                if not (isinstance(s, T) and s.typ == SYM) or n > 8:
                    return None
                for _ in range(n):
                    v = Const(0) if s.op == 'dummy' or isinstance(v, Const) else T('d', v, s, typ=EXPR)
            return v
        return super().ext(m, name, args, kw, node)

    def extmethod(self, m, obj, name, args, kw, node):
        if name == 'diff' and isinstance(obj, T) and obj.typ == EXPR and len(args) == 1:
            return T('d', obj, args[0], typ=EXPR)
        return super().extmethod(m, obj, name, args, kw, node)


class NoFacts:
    facts = ()


class DNorm(TraceNorm):
    """derivatives: linear, Leibniz over products, commuting"""

    def nf_(self, v):
        if isinstance(v, T) and v.op == 'd':
            if isinstance(v.args[1], T) and v.args[1].op == 'dummy':
                return NC()
            return self.diff(self.nf(v.args[0]), v.args[1])
        return super().nf_(v)

    def diff(self, n, s):
        out = NC()
        for w, c in n.t.items():
            out = out + NC({w: self.cdiff(c, s)})
            for i, at in enumerate(w):
                b, r, g = at
                if b[0] == 'x':
                    out = out + NC({w[:i] + ((self.dat(b, s), r, g),) + w[i + 1:]: c})
                elif b[0] in ('wedge', 'hd', 'lc', 'rc') and not r and not g:
                    parts = b[1] if b[0] == 'wedge' else b[1:]
                    for j, p in enumerate(parts):
                        dp = self.diff(NC({p: cconst(1)}), s)
                        for w2, c2 in dp.t.items():
                            np = parts[:j] + (w2,) + parts[j + 1:]
                            nb = ('wedge', np) if b[0] == 'wedge' else (b[0],) + np
                            out = out + NC({w[:i] + ((nb, r, g),) + w[i + 1:]: c}).scale(c2)
                else:
                    self.unknown.append(T('d of %s' % b[0]))
        return out

    def dat(self, b, s):
        k = b[2]
        if isinstance(k, tuple) and k and k[0] == 'D':
            base, idx = k[1], k[2]
        else:
            base, idx = b, ()
        idx = tuple(sorted(idx + (NAMES.get(s.key(), repr(s)),)))
        return ('x', 'd%s %s' % (''.join(idx), base[1]), ('D', base, idx))

    def cdiff(self, c, s):
        """derivative of a commutative coefficient"""
        out = {}
        for m, q in c.items():
            for i, (at, e) in enumerate(m):
                if at[0] == 'x':
                    rest = tuple((a2, e2) for j, (a2, e2) in enumerate(m) if j != i)
                    t = {(): q * e}
                    from sa.ncpoly import cmono_mul
                    mm = cmono_mul(rest, ((self.dat(at, s), 1),))
                    if e != 1:
                        mm = cmono_mul(mm, ((at, e - 1),))
                    out = cadd(out, {mm: q * e})
                else:
                    self.unknown.append(T('d of coefficient'))
        return out


def build(m, W, name, terms, ga=None, cls='Dop', cmpflg=False, mk=None):
    """operator built by the constructors of the code; terms: list of (coefficient value, {symbol: n})"""
    pd = lambda mi: m.call(Cls(W.Pdop), [Dct([(k, Const(n)) for k, n in mi])], {}, None)
    ts = Seq('list', [Seq('tuple', [c, pd(mi)]) for c, mi in terms])
    if cls == 'Sdop':
        return m.call(Cls(W.Sdop), [ts], {}, None)
    return m.call(Cls(W.Dop), [ts], {'ga': ga, 'cmpflg': Const(cmpflg)}, None)


class Unread(Exception):
    pass


def mindex(W, m, p):
    if isinstance(p, Const) and p.v == 1:
        return ()
    if not (isinstance(p, Obj) and 'pdiffs' in p.fields):
        raise Unread('not a partial derivative: %s' % short(p))
    dd = p.fields['pdiffs']
    if not isinstance(dd, Dct) or dd.open is not None:
        raise Unread(short(dd))
    out = []
    for it in dd.items:
        if it[0].key() not in NAMES or not isinstance(it[1], Const):
            raise Unread(short(it[0]))
        out += [NAMES[it[0].key()]] * int(it[1].v)
    return tuple(sorted(out))


def order_of(p):
    o = p.fields.get('order') if isinstance(p, Obj) else None
    return o.v if isinstance(o, Const) else None


def read(W, N, v, bykind=None):
    """{multi-index: NC} of an operator value"""
    if not isinstance(v, Obj) or 'terms' not in v.fields:
        raise Unread(short(v))
    ts = v.fields['terms']
    if not isinstance(ts, Seq) or any(isinstance(i, Each) for i in ts.items):
        raise Unread(short(ts))
    out = {}
    for it in ts.items:
        if not (isinstance(it, Seq) and len(it.items) == 2):
            raise Unread(short(it))
        c, p = it.items
        k = mindex(W, None, p)
        out[k] = out.get(k, NC()) + N.nf(c)
    return {k: N.drop_zero(c) for k, c in out.items() if N.drop_zero(c).t}


def show(op):
    return ' + '.join('(%r) D%s' % (c, ''.join(k)) for k, c in sorted(op.items())) or '0'
