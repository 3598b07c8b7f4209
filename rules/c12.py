"""C12: printed text denotes the value it was printed from."""
import re
from rules.client import *
from rules.curved import f2
from sa.ncpoly import cconst


class Bad(Exception):
    """a definite text that does not denote a value"""


class Unprintable(Exception):
    pass


# ---------------------------------------------------------------- rendering of scalars and blades
def rational(q, latex):
    if q.denominator == 1:
        return str(q.numerator)
    return r'\frac{%d}{%d}' % (q.numerator, q.denominator) if latex else '%d/%d' % (q.numerator, q.denominator)


def atomstr(at, latex):
    if at[0] == 'a' and re.fullmatch(r'[A-Za-z]\w*', str(at[1])):
        nm = str(at[1])
        if latex:
            k = re.fullmatch(r'([A-Za-z]+)(\w*)', nm)
            return k.group(1) + ('_{%s}' % k.group(2) if k.group(2) else '')
        return nm
    if at[0] == 'f':
        return atomstr(('a', at[1]), latex)
    raise Unprintable(repr(at))


def blade(w, latex):
    s = ''.join(str(i + 1) for i in w[1:])
    if w[0] not in ('e', 'b', 'B', 'r'):
        raise Unprintable(repr(w))
    return (r'\boldsymbol{%s}_{%s}' if latex else '%s_%s') % ({'b': 'e'}.get(w[0], w[0]), s)


def product(q, fs, latex):
    """sympy style product of a rational and rendered factors"""
    sgn, q = ('-' if q < 0 else ''), abs(q)
    if latex:
        body = ' '.join(fs)
        if not fs:
            body = rational(q, True)
        elif q.denominator != 1:
            body = r'\frac{%s}{%d}' % (' '.join(([str(q.numerator)] if q.numerator != 1 else []) + fs), q.denominator)
        elif q != 1:
            body = '%d %s' % (q, body)
        return ('- ' if sgn and fs else sgn) + body
    body = '*'.join(([str(q.numerator)] if q.numerator != 1 or not fs else []) + fs)
    return sgn + body + ('/%d' % q.denominator if q.denominator != 1 else '')


def mono(m, q, ws, latex):
    fs = []
    for at, e in m:
        if not isinstance(e, int) or e < 1:
            raise Unprintable(repr(m))
        s = atomstr(at, latex)
        fs.append(s if e == 1 else s + ('^{%d}' if latex else '**%d') % e)
    return product(q, fs + [blade(w, latex) for w in ws], latex)


def joined(ts):
    s = ts[0]
    for t in ts[1:]:
        s += ' - ' + t[1:].lstrip() if t.startswith('-') else ' + ' + t
    return s


def render(d, latex):
    """text of {word: polynomial}"""
    ts = []
    for w, c in sorted(d.items(), key=lambda x: (len(x[0]), repr(x[0]))):
        ms = sorted(c.items(), key=repr)
        if w and len(ms) > 1:
            inner = joined([mono(m, q, (), latex) for m, q in ms])
            body = (r'\left(%s\right) ' if latex else '(%s)*') % inner + (' ' if latex else '*').join(blade(x, latex) for x in w)
            ts.append(body)
        else:
            ts += [mono(m, q, w, latex) for m, q in ms]
    return joined(ts) if ts else '0'


# ---------------------------------------------------------------- reading
TOK = re.compile(r'''\s+|(?P<left>\\left\s*(?:\\[{}]|[.()\[\]{}]))|(?P<right>\\right\s*(?:\\[{}]|[.()\[\]{}]))|(?P<begin>\\begin\s*\{\w+\*?\}(?:\[t\]|\{[clr|]*\})?)|(?P<end>\\end\s*\{\w+\*?\})
 |(?P<nl>\\\\)|(?P<amp>&)|(?P<space>\\[,;! ]|\\quad|~)|(?P<frac>\\d?frac)|(?P<partial>\\partial(?![A-Za-z]))|(?P<blade>\\boldsymbol\s*\{[eBr]\}_\{\d+\}|[eBr]_\d+)|(?P<mapsto>\\mapsto)
 |(?P<num>\d+)|(?P<name>[A-Za-z][A-Za-z0-9]*(?:_\{\w+\}|_\w+)?)|(?P<pow>\*\*)|(?P<op>[-+*/^(){},=:\[\]])|(?P<cdot>\\cdot|\\times)|(?P<brace>\\[{}])''', re.X)


def tokens(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad('%r cannot be read' % s[i:i + 30])
        i = m.end()
        if m.lastgroup and m.lastgroup != 'space':
            t = re.sub(r'\s+', '', m.group())
            out.append((m.lastgroup, t[5:] if m.lastgroup == 'left' else t[6:] if m.lastgroup == 'right' else t))
    return out


def wellformed(toks):
    """braces, environments and \\left ... \\right nest, the latter within one cell"""
    st = []
    for k, t in toks:
        if k in ('left',) or k == 'begin' or (k == 'op' and t in '{('):
            st.append((k, re.sub(r'\\begin|\[t\]$|\}\{[clr|]*\}$', '', t).strip('{}') if k == 'begin' else t))
        elif k == 'right':
            if not st or st.pop()[0] != 'left':
                raise Bad(r'\right without its \left')
        elif k == 'end':
            if not st or st[-1][0] != 'begin' or st.pop()[1] != t[4:].strip('{}'):
                raise Bad('%s without its begin' % t)
        elif k == 'op' and t in '})':
            if not st or st.pop() != ('op', '{' if t == '}' else '('):
                raise Bad('unbalanced %s' % t)
        elif k in ('nl', 'amp') and st and st[-1][0] != 'begin':
            raise Bad('a line or column ends inside %s' % st[-1][1])
    if st:
        raise Bad('unclosed %s' % st[-1][1])


class Reader:
    """value of a text: {(blade, derivatives): polynomial}; `sides` tells on which side of the blade the derivatives stand"""

    def __init__(self, toks, bases=False):
        self.t = [x for x in toks if x[0] not in ('begin', 'end', 'nl', 'amp')]
        self.i = 0
        self.sides = set()

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def need(self, t):
        k = self.next()
        if k[1] != t:
            raise Bad('%s expected, %s found' % (t, k[1]))

    def all(self):
        v = self.expr()
        if self.i < len(self.t):
            raise Bad('%r is left over' % self.peek()[1])
        return v

    def expr(self):
        r, first = {}, True
        while True:
            k, t = self.peek()
            s = 1
            if t in ('+', '-') and k == 'op':
                self.next()
                s = -1 if t == '-' else 1
                if self.peek()[1] == '-':
                    self.next()
                    s = -s
                if first and t == '+':
                    raise Bad('leading +')
            elif not first:
                return r
            v = self.term()
            for key, c in v.items():
                r[key] = cadd(r.get(key, {}), c, s)
                if not r[key]:
                    del r[key]
            first = False

    def starts(self):
        k, t = self.peek()
        return k in ('frac', 'blade', 'num', 'name', 'left') or (k == 'op' and t in '({')

    def term(self):
        v = self.factor()
        while True:
            k, t = self.peek()
            if k == 'op' and t == '*' or k == 'cdot':
                self.next()
                v = self.mul(v, self.factor())
            elif k == 'op' and t == '/':
                self.next()
                d = self.factor()
                c = d.get(((), ()), {})
                if len(d) != 1 or set(c) != {()}:
                    raise Unprintable('quotient')
                v = {key: {m: q / c[()] for m, q in x.items()} for key, x in v.items()}
            elif self.starts():
                v = self.mul(v, self.factor())
            else:
                return v

    def mul(self, a, b):
        r = {}
        for (w1, p1), c1 in a.items():
            for (w2, p2), c2 in b.items():
                if w1 and w2:
                    raise Bad('a product of two blades')
                if p1 and p2:
                    raise Bad('a product of two derivatives')
                if p1 and c2 != cconst(1):
                    raise Bad('a factor after the derivative')
                if p1 and w2:
                    self.sides.add('left')
                if w1 and p2:
                    self.sides.add('right')
                key = (w1 or w2, p1 or p2)
                r[key] = cadd(r.get(key, {}), cmul(c1, c2))
        return r

    def factor(self):
        if self.peek() == ('op', '-'):
            self.next()
            return {k: {m: -q for m, q in c.items()} for k, c in self.factor().items()}
        v = self.primary()
        while self.peek()[0] == 'pow' or self.peek()[1] == '^':
            self.next()
            n = self.exponent()
            if len(v) != 1 or ((), ()) not in v:
                raise Bad('power of a blade or derivative')
            r = {(): Fraction(1)}
            for _ in range(n):
                r = cmul(r, v[((), ())])
            v = {((), ()): r}
        return v

    def exponent(self):
        br = self.peek()[1] == '{'
        if br:
            self.next()
        k, t = self.next()
        if k != 'num':
            raise Bad('exponent %s' % t)
        if br:
            self.need('}')
        return int(t)

    def primary(self):
        k, t = self.next()
        if k == 'num':
            return {((), ()): {(): Fraction(int(t))}} if int(t) else {}
        if k == 'blade':
            d = re.findall(r'\d+', t)[0]
            return {((t.replace('\\boldsymbol', '').strip('{')[0],) + tuple(int(c) - 1 for c in d), ()): cconst(1)}
        if k == 'name':
            if t == 'D' and self.peek()[1] == '{':
                return {((), self.derivs()): cconst(1)}
            nm = plain(t)
            return {((), ()): {((('a', nm), 1),): Fraction(1)}}
        if k == 'left' and t == '(' or k == 'op' and t == '(':
            v = self.expr()
            e = self.next()
            if not (e[0] == 'right' and e[1] == ')' if k == 'left' else e == ('op', ')')):
                raise Bad('unclosed parenthesis')
            return v
        if k == 'op' and t == '{':
            v = self.expr()
            self.need('}')
            return v
        if k == 'frac':
            self.need('{')
            if self.peek()[0] == 'partial':
                return {((), self.fracderiv()): cconst(1)}
            a = self.expr()
            self.need('}')
            self.need('{')
            d = self.expr()
            self.need('}')
            c = d.get(((), ()), {})
            if len(d) != 1 or set(c) != {()}:
                raise Unprintable('quotient')
            return {key: {m: q / c[()] for m, q in x.items()} for key, x in a.items()}
        raise Bad('%s where a value is expected' % ('the end' if k is None else t))

    def derivs(self):
        """D{x}^2{y}"""
        out = []
        while self.peek()[1] == '{':
            self.next()
            k, t = self.next()
            if (k, t) == ('op', '}') and not out:
                return ()
            self.need('}')
            n = 1
            if self.peek()[1] == '^':
                self.next()
                n = self.exponent()
            out.append((t, n))
        return norm(out)

    def fracderiv(self):
        self.next()
        n = 1
        if self.peek()[1] == '^':
            self.next()
            n = self.exponent()
        self.need('}')
        self.need('{')
        out = []
        while self.peek()[0] == 'partial':
            self.next()
            k, t = self.next()
            if k != 'name':
                raise Bad('derivative by %s' % t)
            e = 1
            if self.peek()[1] == '^':
                self.next()
                e = self.exponent()
            out.append((plain(t), e))
        self.need('}')
        if sum(e for _, e in out) != n:
            raise Bad('a derivative of order %d by %d variables' % (n, sum(e for _, e in out)))
        return norm(out)


def norm(ps):
    d = {}
    for x, n in ps:
        d[x] = d.get(x, 0) + n
    return tuple(sorted(d.items()))


# ---------------------------------------------------------------- the printer
class PrintMixin:
    """an object of a printer class renders expressions in the notation of the computer algebra system and
    dispatches to the printing methods of the objects of the package"""
    depth = 0

    def printer_kind(self, o):
        if not (isinstance(o, Obj) and isinstance(o.cls, ClassInfo)):
            return None
        for c in o.cls.mro():
            if isinstance(c, ClassInfo) and c.name in ('GaPrinter', 'GaLatexPrinter'):
                return 'latex' if c.name == 'GaLatexPrinter' else 'str'
        return None

    def settings(self, m, o):
        if '_settings' not in o.fields:
            o.fields['_settings'] = Dct([[Const(k), v] for k, v in (
                ('galgebra_mv_fmt', Const(1)), ('galgebra_mlt_lcnt', Const(1)), ('dict_mode', FALSE), ('derivative_color', NONE), ('function_color', NONE), ('basis_vector_color', NONE),
                ('omit_function_args', FALSE), ('omit_partial_derivative_fraction', FALSE), ('mode', Const('plain')))])
        return o.fields['_settings']

    def getattr(self, m, o, name, node):
        k = self.printer_kind(o)
        if k and name == '_settings':
            return self.settings(m, o)
        if k and name in ('_print', 'doprint') and o.cls.lookup(name) is None:
            return Prim(name, lambda mm, a, kw, nd: self.text(mm, o, a[0], nd))
        return super().getattr(m, o, name, node)

    def text(self, m, P, x, node):
        latex = self.printer_kind(P) == 'latex'
        if isinstance(x, Obj) and isinstance(x.cls, ClassInfo):
            meth = '_latex' if latex else '_sympystr'
            if x.cls.lookup(meth) is not None:
                r = m.call(m.getattr(x, meth, node), [P], {}, node)
                return r
        if isinstance(x, Const) and isinstance(x.v, str):
            return x
        if isinstance(x, (T, Const)):
            d = self.val(x)
            if d is not None:
                try:
                    return Const(render(d, latex))
                except Unprintable:
                    pass
        return T('printed', x, typ='str')

    def ext(self, m, name, args, kw, node):
        if name in ('builtins.str', 'str') and len(args) == 1 and not kw and isinstance(args[0], (T, Const)) and not (isinstance(args[0], Const) and not num(args[0].v)):
            d = self.val(args[0])
            if d is not None:
                try:
                    return Const(render(d, False))
                except Unprintable:
                    pass
        if name.endswith('.make_args') and len(args) == 1 and isinstance(args[0], (T, Const)):
            d = self.val(args[0])
            if d is not None and name.endswith('Add.make_args'):
                return Seq('tuple', [self.mk({w: {mn: q}}) for w, c in d.items() for mn, q in c.items()] or [Const(0, True)])
            if d is not None and name.endswith('Mul.make_args') and len(d) == 1 and len(list(d.values())[0]) == 1:
                (w, c), = d.items()
                (mn, q), = c.items()
                fs = [self.mk({(): cconst(q)})] if q != 1 else []
                fs += [self.mk({(): {((at, e),): Fraction(1)}}) for at, e in mn] + ([self.mk({w: cconst(1)})] if w else [])
                return Seq('tuple', fs or [Const(1, True)])
        if name.endswith('Printable.__new__') and len(args) == 1 and isinstance(args[0], Cls):
            return Obj(m.fresh('new:' + args[0].ci.name), args[0].ci, fresh=True)
        return super().ext(m, name, args, kw, node)

    def extmethod(self, m, o, name, args, kwargs, node):
        if name == 'sort_key' and isinstance(o, T):
            d = self.val(o)
            if d is not None and list(d) == [()] and len(d[()]) == 1:
                return Seq('tuple', [Const(repr(list(d[()])[0]))])
        return super().extmethod(m, o, name, args, kwargs, node)


class PRec(PrintMixin, CRec):
    pass


class PBuild(PrintMixin, CBuild):
    pass


# ---------------------------------------------------------------- the values printed
def plain(t):
    return re.sub(r'[_{}]', '', t)


def clean(d):
    """names of symbols up to the notation of their subscripts"""
    out = {}
    for k, c in d.items():
        if clear(c):
            r = {}
            for mn, q in c.items():
                x = cconst(q)
                for at, e in mn:
                    at = ('a', plain(str(at[1]))) if at[0] in 'af' else at
                    x = cmul(x, {((at, e),): Fraction(1)})
                r = cadd(r, x)
            out[k] = r
    return out


def pdiffs(H, p):
    d = p.fields.get('pdiffs')
    if not isinstance(d, Dct):
        raise NoRead(short(p, 200))
    out = {}
    for it in d.items:
        c = H.coef(it[0])
        if c is None or len(c) != 1 or not (isinstance(it[1], Const) and isinstance(it[1].v, int)):
            raise NoRead(short(p, 200))
        (mn, q), = c.items()
        out[mn[0][0][1]] = out.get(mn[0][0][1], 0) + it[1].v
    return tuple(sorted((k, n) for k, n in out.items() if n))


def value(A, v):
    """({(blade, derivatives): polynomial}, side) of a printed object"""
    H, W = A.H, A.W
    if isinstance(v, Obj) and isinstance(v.cls, ClassInfo):
        nm = [c.name for c in v.cls.mro() if isinstance(c, ClassInfo)]
        if 'Mv' in nm:
            return {(w, ()): c for w, c in A.mv(v).items()}, None
        if 'Pdop' in nm:
            return {((), pdiffs(H, v)): cconst(1)}, None
        if 'Sdop' in nm or 'Dop' in nm:
            ts = v.fields.get('terms')
            if not isinstance(ts, Seq) or not ts.concrete():
                raise NoRead(short(v, 200))
            r = {}
            for t in ts.items:
                if not (isinstance(t, Seq) and len(t.items) == 2 and isinstance(t.items[1], Obj)):
                    raise NoRead(short(t, 200))
                p = pdiffs(H, t.items[1])
                d = {(): A.scal(t.items[0])} if 'Sdop' in nm else A.mv(t.items[0])
                for w, c in d.items():
                    r[w, p] = cadd(r.get((w, p), {}), c)
            side = None
            if 'Dop' in nm:
                f = v.fields.get('cmpflg')
                if not isinstance(f, Const):
                    raise NoRead('cmpflg')
                side = 'left' if f.v else 'right'
            return r, side
    if isinstance(v, Obj):
        raise NoRead(short(v, 200))
    d = H.lin(v)
    if d is None:
        raise NoRead(short(v, 200))
    return {(w, ()): c for w, c in d.items()}, None


def inbase(H, v):
    """does the text of the multivector name products of basis vectors"""
    if H.ortho or not (isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and H.W.Mv in v.cls.mro()):
        return False
    b = v.fields.get('is_blade_rep')
    return isinstance(b, Const) and not b.v


def meaning(H, rd, base):
    """blade components of a text"""
    r = {}
    for (w, p), c in rd.items():
        if base and len(w) > 1:
            d = H.base_table()[0][w[1:]]
        else:
            d = {w[1:]: cconst(1)}
        for x, q in d.items():
            r[x, p] = cadd(r.get((x, p), {}), cmul(q, c))
    return clean(r)


def shown(d):
    return ', '.join('%s: %s' % ((('e' + ''.join(str(i + 1) for i in w)) if w else '1') + ''.join(' d%s' % x if n == 1 else ' d%s^%d' % (x, n) for x, n in p), show_c(c)) for (w, p), c in sorted(d.items(), key=repr)) or '0'


def text_of(v):
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    k = definite(v)
    if k or isinstance(v, Seq):
        raise Wrong('printed as %s, not text' % (k or 'a ' + v.kind))
    raise NoRead(short(v, 200))


class Printing:
    def __init__(self, ck, A):
        self.ck, self.A = ck, A
        self.C = Client(A)
        self.W = A.W

    def printer(self, m, kind, **st):
        P = m.call(m.module_name(self.W.prog.module('printer'), 'GaLatexPrinter' if kind == 'latex' else 'GaPrinter'), [], {}, None)
        s = self.A.H.settings(m, P)
        for k, v in st.items():
            for i in s.items:
                if i[0].v == k:
                    i[1] = Const(v)
        return P

    def fmt(self, m, get):
        return m.module_name(self.W.prog.module('printer'), 'Fmt')

    def run(self, src, judge, what='denotes', kinds=('str', 'latex'), **st):
        """judge(m, object, text, kind) returns None or what is wrong"""
        A, ck = self.A, self.ck
        e = self.C.entry(src, printer_Fmt=self.fmt)
        for kind in kinds:
            subj = '%s of %s%s [%s]' % ('LaTeX' if kind == 'latex' else 'text', src, ', format %s' % list(st.values())[0] if st else '', A.name)

            def go(m, kind=kind):
                v = e(m)
                m.c12 = None
                try:
                    val = judge.value(self, m, v)
                except NoRead as x:
                    m.c12 = ('?', str(x))
                    return NONE
                s = A.H.text(m, self.printer(m, kind, **st), v, None)
                try:
                    s = text_of(s)
                    err = judge.check(self, m, val, s, kind)
                    m.c12 = ('bad', err) if err else ('ok', None)
                except Wrong as x:
                    m.c12 = ('bad', str(x))
                except Bad as x:
                    m.c12 = ('bad', '%s in %r' % (x, s[:200]))
                except (NoRead, Unprintable) as x:
                    m.c12 = ('?', str(x))
                return NONE
            try:
                tr = A.I.run(go)
            except RecursionError:
                ck.undecided(what, subj, 'recursion')
                continue
            self.settle(what, subj, tr)

    def settle(self, rule, subj, tr):
        ck = self.ck
        if not tr:
            ck.undecided(rule, subj, 'no path')
            return
        bad = None
        for t in tr:
            r = getattr(t.m, 'c12', None)
            und = [c for c, v in t.facts if not isinstance(c, Const)] if hasattr(t, 'facts') else [c for c, v in t.m.factlog if not isinstance(c, Const)]
            if t.kind == 'raise':
                if und:
                    ck.undecided(rule, subj, 'raises under %s' % short(und[0], 150))
                    return
                bad = bad or (t.where or 'galgebra', 'printing raises %s' % short(t.exc, 150), t)
                continue
            if t.kind != 'return' or r is None:
                ck.undecided(rule, subj, '%s %s' % (t.kind, short(t.exc, 150)))
                return
            if r[0] == '?':
                ck.undecided(rule, subj, r[1][:200])
                return
            if r[0] == 'bad':
                if und:
                    ck.undecided(rule, subj, 'undecided condition %s' % short(und[0], 150))
                    return
                bad = bad or (t.where or 'galgebra', r[1], t)
        if bad:
            ck.bad(rule, subj, bad[0], bad[1], facts_of(bad[2]))
        else:
            ck.ok(rule, subj)


class Denotes:
    """the text is an expression with the value of the object"""

    def value(self, R, m, v):
        d, side = value(R.A, v)
        return clean(d), side, inbase(R.A.H, v)

    def check(self, R, m, val, s, kind):
        want, side, base = val
        t = tokens(s)
        if kind == 'latex':
            wellformed(t)
        rd = Reader(t)
        got = meaning(R.A.H, rd.all(), base)
        if got != want:
            return 'the text %r denotes %s, the value is %s' % (s[:200], shown(got), shown(want))
        wrong = rd.sides - {side} if side else set()
        if wrong:
            return 'the text %r puts the derivatives to the %s of the blades, the operator acts to the other side' % (s[:200], 'right' if side == 'right' else 'left')


class Titled(Denotes):
    """title = text"""
    title = 'T'

    def value(self, R, m, v):
        o = v.fields.get('_obj') if isinstance(v, Obj) else None
        while isinstance(o, Obj) and '_obj' in o.fields:
            o = o.fields['_obj']
        return super().value(R, m, o if o is not None else v)

    def check(self, R, m, val, s, kind):
        if self.title is not None:
            t = s.lstrip()
            if not t.startswith(self.title + ' ='):
                return 'the text %r does not start with the title' % s[:200]
            s = t[len(self.title) + 2:]
        return super().check(R, m, val, s, kind)


class Lines(Titled):
    """formats 2 and 3: every line has the blades of one grade, or one blade"""

    def __init__(self, fmt, title):
        self.fmt, self.title = fmt, title

    def check(self, R, m, val, s, kind):
        e = super().check(R, m, val, s, kind)
        if e:
            return e
        body = s.split('=', 1)[1] if self.title else s
        if kind == 'latex':
            lines = [x for x in re.split(r'\\\\', re.sub(r'\\(begin|end)\s*\{aligned\}(\[t\])?', '', body)) if x.strip(' &')]
        else:
            lines = body.split('\n')
        seen = set()
        for i, ln in enumerate(lines):
            t = tokens(ln)
            while t and t[0] in (('op', '+'), ('amp', '&')):
                t = t[1:]
            ks = {k[0] for k in Reader(t).all()}
            gs = {max(len(k) - 1, 0) for k in ks}
            if len(ks if self.fmt == 3 else gs) > 1:
                return 'format %d has the %s %s on one line of %r' % (self.fmt, 'blades' if self.fmt == 3 else 'grades', sorted(ks if self.fmt == 3 else gs), s[:200])
            if self.fmt == 2 and gs & seen:
                return 'format 2 has grade %s on two lines of %r' % (list(gs)[0], s[:200])
            seen |= gs
        return None


class Images(Denotes):
    """a linear transformation: the image of every basis vector"""

    def value(self, R, m, v):
        ga = R.C.box[0]
        out = []
        for j in range(R.A.n):
            x = m.call(v, [R.A.H.mvobj(ga, {(j,): cconst(1)}, 'e%d' % j)], {}, None)
            out.append((j, clean({(w, ()): c for w, c in R.A.mv(x).items()})))
        return out

    def check(self, R, m, val, s, kind):
        got = {}
        if kind == 'latex':
            t = tokens(s)
            wellformed(t)
            k = re.fullmatch(r'\s*\\left\s*\\\{(.*)\\right\s*(\\\}|\.)\s*', s, re.S)
            if not k:
                return 'the text %r is not a brace of cases' % s[:200]
            lines = [x for x in re.split(r'\\\\', re.sub(r'\\(begin|end)\s*\{(aligned|array|split)\}(\[t\]|\{[clr]*\})?', '', k.group(1))) if x.strip(' &')]
            sep = r'&?\s*\\mapsto|&?\s*=\s*&?'
        else:
            lines, sep = [re.sub(r'^\s*Lt\((.*?)\)', r'\1', x) for x in s.split('\n')], '='
        for ln in lines:
            p = re.split(sep, ln)
            if len(p) != 2:
                return 'the line %r does not give the image of a basis vector' % ln[:100]
            l = Reader(tokens(p[0])).all()
            if len(l) != 1 or list(l.values()) != [cconst(1)]:
                return 'the line %r does not start with a basis vector' % ln[:100]
            w = list(l)[0][0]
            if len(w) != 2 or w[1] in got:
                return 'the line %r repeats a basis vector' % ln[:100]
            got[w[1]] = meaning(R.A.H, Reader(tokens(p[1])).all(), False)
        for j, d in val:
            if j not in got:
                return 'no image of e%d in %r' % (j + 1, s[:200])
            if got[j] != d:
                return 'the text %r sends e%d to %s, its image is %s' % (s[:200], j + 1, shown(got[j]), shown(d))
        return None


class Multi(Denotes):
    def value(self, R, m, v):
        while isinstance(v, Obj) and '_obj' in v.fields:
            v = v.fields['_obj']
        x = m.getattr(v, 'fvalue', None)
        d, side = value(R.A, x)
        return clean(d), None, False


DELIMS = {'(': ')', '[': ']', '\\{': '\\}'}


class Container(Denotes):
    """a sequence or dictionary: every entry, in order, between its delimiters"""

    def __init__(self, srcs, delim, pairs=False):
        self.srcs, self.delim, self.pairs = srcs, delim, pairs

    def value(self, R, m, v):
        env = {}
        out = []
        for s in self.srcs:
            x = R.C.entry(s)(m, env)
            d, side = value(R.A, x)
            out.append((clean(d), side, inbase(R.A.H, x)))
        return out

    def check(self, R, m, val, s, kind):
        t = tokens(s)
        wellformed(t)
        ds = [x for x in t if x[0] in ('left', 'right') and x[1] != '.']
        if not ds or ds[0] != ('left', self.delim) or ds[-1] != ('right', DELIMS[self.delim]):
            return 'the text %r is not between %s and %s' % (s[:200], self.delim, DELIMS[self.delim])
        cells, depth = [[]], 0
        for x in t:
            if x[0] in ('begin', 'end', 'nl', 'amp'):
                continue
            if x == ('op', ',') or self.pairs and x == ('op', ':'):
                cells.append([])
            else:
                cells[-1].append(x)
        if len(cells) != len(val):
            return '%d entries of %d in %r' % (len(cells), len(val), s[:200])
        for i, (c, v) in enumerate(zip(cells, val)):
            st, drop = [], set()
            for j, x in enumerate(c):
                if x[0] == 'left':
                    st.append(j)
                elif x[0] == 'right':
                    k = st.pop() if st else None
                    if k is None or c[k][1] == '.' or x[1] == '.' or k == 0 and i == 0:
                        drop |= {j, k}
            c = [x for j, x in enumerate(c) if j not in drop and j not in st]
            rd = Reader(c)
            got = meaning(R.A.H, rd.all(), v[2])
            if got != v[0]:
                return 'entry %d of %r denotes %s, its value is %s' % (i + 1, s[:200], shown(got), shown(v[0]))
        return None


def containers(R):
    L = ['A', '-e1', 'v - k * e12', 'k - l', 'e12', 'zero', 's']
    for n in (1, 2, 3, 4):
        for f in (0, 1):
            for o, c, d in (('[', ']', '['), ('(', ',)', '(')):
                R.run('printer_Fmt(%s%s%s, %d)' % (o, ', '.join(L[:n]), c, f), Container(L[:n], d), kinds=('str',))
    for n in (1, 2, 3):
        for f in (0, 1):
            ks = ['k', 'l', 'x'][:n]
            R.run('printer_Fmt({%s}, %d)' % (', '.join('%s: %s' % x for x in zip(ks, L)), f), Container([y for x in zip(ks, L) for y in x], '\\{', True), kinds=('str',))


VALUES = ['A', 'v', 'b', 's', 'zero', 'e1', '-e1', 'e12', '-e12', '1 + e1', '-1 - e1 + 2 * e12', 'v / 2', '-(v / 3)', 'k * e1', '(k + l) * e1', '(k - l) * e1 - k * e12', '-(k + l) * e12', 'x ** 2 * e1', '(k - 1) * e1 + e12', '3 * e1 - e2', '2 - e12', 'k - l * e12', 'k + l - e1',
          '(k * l - x) * e2 - 1', 'A - B', '-A', '0 * e1', '2 * e12 / 3 - e1 / 3', 'k * e1 + l * e1', 'k + e12 * l + k', '-k * e1 - l * e2', '(-k - l) * e1', 'v * w', 'v ^ w', 'v | w', 'A.grade(0)', 'A.grade(1)', 'A.odd()', 'A.even()', 'x * y * e1 - x * e2', '1 * e12', '(1 + k) * (1 + e1)', 'k ** 2', '-2 - k * e12']
BASES = ['A.base_rep()', '(v ^ w).base_rep()', '(v * w).base_rep()', 'e12.base_rep()', '(2 - k * e12).base_rep()', '(-e12).base_rep()']
OPS = ['P', 'Q', 'P * Q', 'P * P * Q', 'Sd', 'Se', 'Sd + Se', 'Sd - Se', '-Sd', 'Sd * Se', 'Sdop([(1, P), (-1, Q)])', 'Sdop([(-1, P), (k, Q)])', 'Sdop([(k + l, P), (-k, Q)])', 'Sdop([(k - l, Pdop({})), (1, P)])', 'Sdop([(1, Pdop({}))])', 'Sdop([(-1, Pdop({}))])', 'Sdop([(-1, Pdop({})), (1, P)])',
       'Sdop([(2, Pdop({})), (-1, Q)])', 'Sdop([])', 'ga.grad', 'ga.rgrad', 'ga.grad * ga.grad', 'ga.dop([e1, e2], [P, Q])', 'ga.dop([-e1, e2], [P, Q])', 'ga.dop([e1, -e2], [P, Q])', 'ga.dop([-e1, -e12], [P, Q])', 'ga.dop([k * e1, e1], [P, Q])', 'ga.dop([-k * e1, -e1], [P, Q])', 'ga.dop([1 + e1, -e1], [P, Q])',
       'ga.dop([(k + l) * e1, e2], [P, Q])', 'ga.dop([-(k + l) * e1], [P])', 'ga.dop([(k + l) * e12, e1], [P, Pdop({})])', 'ga.dop([e1], [Pdop({})])', 'ga.dop([-e1, e2], [Pdop({}), P])', 'ga.dop([-k * e1], [Pdop({})])', 'ga.dop([k * e1, e1], [P, Pdop({})])', 'ga.dop([e1 / 2 - 1], [P * P])',
       'ga.dop([e1, e2], [P, Q], cmpflg=True)', 'ga.dop([-e1, -e2], [P, Q], cmpflg=True)', 'ga.dop([-k * e1, -e1, k * e12], [P, Q, Q], cmpflg=True)', 'ga.dop([1 + e1, -e1], [P, Q], cmpflg=True)', 'ga.dop([(k + l) * e1, e2], [P, Q], cmpflg=True)', 'ga.dop([e1], [Pdop({})], cmpflg=True)',
       'ga.dop([-e1, e2], [Pdop({}), P], cmpflg=True)', 'ga.dop([-(k + l) * e1], [P], cmpflg=True)', 'D', 'E', 'Dr', '-D', 'D / 2', 'k * D', 'D + E', 'D - E', 'v * D', 'ga.grad * D', 'v | ga.grad', 'v ^ ga.grad', '2 * ga.grad', '-ga.grad', 'ga.dop([-e1 / 2], [P], cmpflg=True)', 'ga.dop([-e1 / 2], [P])', 'ga.dop([k * l * e1], [Q * Q])',
       'ga.dop([-2 * e1], [P * P], cmpflg=True)', 'ga.dop([-2 * e1], [P * P])', 'ga.dop([-k * e12, e1], [P * Q, P * P * P], cmpflg=True)', 'ga.dop([-k * e12, e1], [P * Q, P * P * P])', 'ga.dop([-3 * e1, 2 * e1], [P * P, Q * P], cmpflg=True)', '-(ga.rgrad * ga.rgrad)', '-2 * (ga.grad * ga.grad)',
       'ga.dop([-(k + 1) * e1, k * e12 - 2], [P * P, Q * Q * P], cmpflg=True)', 'Sdop([(-1, P * P), (-k, P * Q), (2, Q * Q * Q)])', 'Sdop([(k - 1, P * P), (1, Pdop({}))])', 'Sdop([(1, Pdop({})), (k - 1, P * P)])']


FORMATS = ['A', '-A', '1 - e1 + k * e12', 'A.odd()', 'v', '-v + b', 's', 'e1', '-e12', 'zero', '(k + l) * e1 - (k - l) * e12 + 1', 'A.even()', '-e1 - e23']
TITLED = ['D.Fmt(1, "T")', '(D - E).Fmt(1, "T")', 'ga.grad.Fmt(1, "T")', '(-v).Fmt(title="T")', 'Dr.Fmt(title="T")', 's.Fmt(1, "T")']
MAPS = ['F', 'F + G', 'F * G', 'ga.lt({e1.obj: e2.obj})', 'ga.lt([e2, -e1 + k * e2] + [e1] * (ga.n - 2))', 'F - F', '2 * F', 'ga.lt([zero] * ga.n)', 'ga.lt("S", mode="s")', 'F.adj()', 'ga.lt(M)']


def run(ck, W):
    ck.rule('denotes', 'the text and the LaTeX of an object, read back with the usual precedence of operators, are well-formed and have the value of the object; line formats keep grades or blades on lines of their own')
    C0 = cconst
    den = Denotes()
    for n, g, nm, vals, ops in (
            (2, [[C0(2), {}], [{}, C0(-3)]], 'orthogonal metric, n=2', VALUES, OPS),
            (2, [[C0(2), C0(1)], [C0(1), C0(3)]], 'oblique metric, n=2', VALUES + BASES, OPS),
            (3, [[C0(1), {}, {}], [{}, C0(1), {}], [{}, {}, C0(-1)]], 'orthogonal metric, n=3', ['A', 'v', 'b', '-A', 'A - B', 'e12 - ga.i', 'A.odd()', 'A.even()', 'e13 - e23', '(k + l) * e123 - e12', 'e123', '-e123 + k'], ['ga.grad', 'ga.rgrad', 'ga.grad * ga.grad', 'D'])):
        A = Alg(ck, W, n, g, ['x', 'y', 'z'][:n], nm, H=PRec)
        R = Printing(ck, A)
        for s in vals:
            R.run(s, den)
        for s in ops:
            R.run(s, den)
        for s in FORMATS if n == 3 else FORMATS[:3]:
            for f in (2, 3):
                R.run('(%s).Fmt(%d)' % (s, f), Lines(f, None))
                R.run('(%s).Fmt(%d, "T")' % (s, f), Lines(f, 'T'))
            R.run('(%s).Fmt(1, "T")' % s, Titled())
        for s in TITLED:
            R.run(s, Titled())
        for s in MAPS:
            R.run(s, Images())
        for s in ('ga.lt(3 * e1 + e2)', 'ga.lt(2 + 3 * e12)', 'ga.lt(e12)'):
            R.run(s, Images())
        for s in ('T1', 'T2', 'U2', 'T2 + U2', 'T1 + U1', 'T2 - U2', 'T1 * U1'):
            R.run(s, Multi())
        for s in ('T2', 'T1', 'Mlt(G - F, ga)', 'Mlt(ga.lt([(k - l) * e1 - e2, (-k - l) * e1 + k * e2] + [e1] * (ga.n - 2)), ga)', 'Mlt(ga.lt([-e1, (k - 2) * e2] + [e1] * (ga.n - 2)), ga)'):
            for k in (1, 2, 3, 4):
                R.run('(%s).Fmt(%d)' % (s, k), Multi())
        containers(R)
    return ck.finish('Abstract interpretation of the printing methods: the text they assemble is a known string for every value with given coefficients, and is read back by a parser of the notation.', min_decided=100)
