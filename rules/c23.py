"""C23: formatting and printing leave the printing state of the process alone; the switches set what they are given."""
from rules.c12 import *
from rules.c02 import Frozen, Diff

SET = {'omit_function_args', 'omit_partial_derivative_fraction', 'inv_trig_style', 'function_color', 'derivative_color', 'basis_vector_color', 'galgebra_mv_fmt', 'galgebra_mlt_lcnt'}


class IOMixin(PrintMixin):
    """standard output, string buffers and the settings shared by all printers"""

    def reset(self):
        self.out0 = Obj('standard output', None, fresh=True)
        self.out0.fields['text'] = Seq('list', [])
        self.stdout = self.out0
        self.gset = {}
        self.glob = {}
        self.other = []

    def settings(self, m, o):
        new = '_settings' not in o.fields
        d = super().settings(m, o)
        if new:
            for k, v in self.gset.items():
                hit = [i for i in d.items if i[0].v == k]
                if hit:
                    hit[0][1] = v
                else:
                    d.items.append([Const(k), v])
        return d

    def getattr(self, m, o, name, node):
        if isinstance(o, Ext) and o.name == 'sys' and name == 'stdout':
            return self.stdout
        if isinstance(o, Obj) and o.cls is None and 'text' in o.fields:
            if name == 'getvalue':
                if o is self.out0:
                    raise PyRaise(Const('no getvalue'), 'AttributeError', node, m.where(node))
                return Prim(name, lambda mm, a, kw, nd: self.joined(o))
            if name == 'write':
                return Prim(name, lambda mm, a, kw, nd: self.write(o, a[0]))
            if name in ('flush', 'close'):
                return Prim(name, lambda mm, a, kw, nd: NONE)
        if isinstance(o, Cls) and name == '_global_settings':
            return Obj('global settings', None, fresh=True, fields={'gs': TRUE})
        if isinstance(o, Obj) and o.cls is None and 'gs' in o.fields and name in ('update', 'pop', 'clear', 'get', 'setdefault'):
            return Prim(name, lambda mm, a, kw, nd: self.gsetcall(mm, name, a, kw, nd))
        if isinstance(o, Cls) and name == 'set_global_settings' and o.ci.lookup(name) is None:
            return Prim(name, lambda mm, a, kw, nd: self.setglobal(mm, kw, nd))
        return super().getattr(m, o, name, node)

    def gsetcall(self, m, name, a, kw, nd):
        if name == 'update':
            for x in a:
                if not isinstance(x, Dct):
                    self.other.append('settings at %s' % m.where(nd))
                    return NONE
                for i in x.items:
                    self.setone(m, i[0], i[1], nd)
            for k, v in kw.items():
                self.setone(m, Const(k), v, nd)
        elif name == 'get':
            return self.gset.get(a[0].v, a[1] if len(a) > 1 else NONE) if a and isinstance(a[0], Const) else T('setting', typ='other')
        elif name == 'pop' and a and isinstance(a[0], Const):
            return self.gset.pop(a[0].v, a[1] if len(a) > 1 else NONE)
        else:
            self.other.append('settings at %s' % m.where(nd))
        return NONE

    def setone(self, m, k, v, nd):
        if not isinstance(k, Const):
            self.other.append('settings at %s' % m.where(nd))
            return
        self.gset[k.v] = v

    def setitem(self, m, o, i, v, node):
        if isinstance(o, Obj) and o.cls is None and 'gs' in o.fields:
            self.setone(m, i, v, node)
            return True
        return super().setitem(m, o, i, v, node)

    def setglobal(self, m, kw, nd):
        for k, v in kw.items():
            if v != NONE:            # settings that are None are left alone
                self.gset[k] = v
        return NONE

    def joined(self, o):
        ts = o.fields['text'].items
        if all(isinstance(t, Const) for t in ts):
            return Const(''.join(t.v for t in ts))
        return T('captured', *ts, typ='str')

    def write(self, o, t):
        o.fields['text'].items.append(t)
        return NONE

    def effect(self, m, kind, target, name, value, node):
        if kind == 'setattr' and isinstance(target, Ext):
            if target.name == 'sys' and name == 'stdout':
                self.stdout = value
            elif target.name.startswith(('sys', 'sympy', 'builtins', 'IPython')):
                self.other.append('%s.%s is assigned at %s' % (target.name, name, m.where(node)))
            return None
        return super().effect(m, kind, target, name, value, node)

    def call(self, m, f, args, kw, node):
        if self.qual(f) == 'parse_line' and args:      # a function of strings
            return T('parsed', *args[:1], typ='str')
        return super().call(m, f, args, kw, node)

    def ext(self, m, name, args, kw, node):
        if name.endswith('.set_global_settings'):
            return self.setglobal(m, kw, node)
        if name == 'io.StringIO' and not args:
            o = Obj('buffer', None, fresh=True)
            o.fields['text'] = Seq('list', [])
            return o
        if name in ('builtins.print', 'print'):
            f = kw.get('file')
            o = f if isinstance(f, Obj) and 'text' in f.fields else self.stdout if f is None or f == NONE else None
            if isinstance(o, Obj) and 'text' in o.fields:
                ts = [a if isinstance(a, Const) and isinstance(a.v, str) else T('printed', a, typ='str') for a in args]
                for i, t in enumerate(ts):
                    o.fields['text'].items += ([Const(' ')] if i else []) + [t]
                o.fields['text'].items.append(Const('\n'))
            return NONE
        if name.endswith('init_printing'):
            self.other.append('init_printing is called at %s' % m.where(node))
            return NONE
        if name in ('builtins.str', 'str') and len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, float):
            return Const(str(args[0].v))
        if name in ('builtins.eval', 'eval'):
            return T('evaluated', *args[:1], typ='other')
        return super().ext(m, name, args, kw, node)


class IRec(IOMixin, CRec):
    pass


CLASSES = {'printer': ('GaPrinter', 'GaLatexPrinter'), 'gprinter': ('LaTeX',)}


class State:
    """global printing state: module variables, class attributes, shared settings, standard output"""

    def __init__(self, m, S):
        H, W = S.A.H, S.A.W
        self.v = {}
        for mn in ('printer', 'gprinter'):
            mod = W.prog.module(mn)
            if mod is None:
                continue
            for nm in sorted(simple_names(mod.tree.body)):
                try:
                    v = m.module_name(mod, nm)
                except PyRaise:
                    continue
                if isinstance(v, (Const, Seq, Dct)):
                    self.v['%s.%s' % (mn, nm)] = S.FZ.freeze(v)
            for cn in CLASSES[mn]:
                c = m.module_name(mod, cn)
                if not isinstance(c, Cls):
                    continue
                for nm in sorted(simple_names(c.ci.node.body)):
                    try:
                        v = m.getattr(c, nm, None)
                    except PyRaise:
                        continue
                    if isinstance(v, (Const, Seq, Dct)):
                        self.v['%s.%s' % (cn, nm)] = S.FZ.freeze(v)
        for k, v in H.gset.items():
            self.v['setting %s' % k] = S.FZ.freeze(v)
        self.v['standard output'] = ('id', id(H.stdout))


def simple_names(body):
    for s in body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    yield t.id
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            yield s.target.id


class Scoped:
    def __init__(self, ck, A):
        self.ck, self.A, self.W = ck, A, A.W
        self.C = Client(A)
        self.FZ = Frozen(A)

    def state(self, m):
        return State(m, self)

    def compare(self, a, b, allow=()):
        out = []
        for k in sorted(set(a.v) | set(b.v)):
            if any(k == x or k.endswith('.' + x) or k == 'setting ' + x for x in allow):
                continue
            if k not in b.v:
                out.append('%s is gone' % k)
            elif k not in a.v:
                if k.startswith('setting '):
                    out.append('%s is set to %s' % (k, self.FZ.say(b.v[k])))
            elif k == 'standard output':
                if a.v[k] != b.v[k]:
                    out.append('standard output is replaced')
            else:
                try:
                    self.FZ.same(a.v[k], b.v[k], k)
                except Diff as e:
                    if a.v[k][0] == 'dict' and not a.v[k][1]:
                        continue        # things computed so far
                    out.append(str(e))
        return out

    def mod(self, nm):
        return self.W.prog.module(nm)

    def fn(self, m, name, module='printer'):
        return m.module_name(self.mod(module), name)

    def call(self, m, name, *a, module='printer', **k):
        return m.call(self.fn(m, name, module), list(a), k, None)

    def run(self, rule, subj, entry):
        """entry(m) -> list of what is wrong"""
        ck, H = self.ck, self.A.H
        subj = '%s [%s]' % (subj, self.A.name)

        def go(m):
            H.reset()
            m.c23 = None
            try:
                r = entry(m)
                m.c23 = ('bad', r[0]) if r else ('ok', None)
            except NoRead as e:
                m.c23 = ('?', str(e))
            if H.other and m.c23[0] != '?':
                m.c23 = ('bad', H.other[0])
            return NONE
        try:
            tr = self.A.I.run(go)
        except RecursionError:
            ck.undecided(rule, subj, 'recursion')
            return
        bad = None
        for t in tr:
            r = getattr(t.m, 'c23', None)
            und = [c for c, v in t.facts if not isinstance(c, Const)]
            if t.kind == 'raise' and not und and len(tr) == 1:
                bad = ('raises %s' % short(t.exc, 150), t)
                break
            if t.kind != 'return' or r is None or r[0] == '?':
                ck.undecided(rule, subj, '%s %s' % (t.kind, short(r[1] if r else t.exc, 200)))
                return
            if r[0] == 'bad':
                if und:
                    ck.undecided(rule, subj, 'undecided condition %s' % short(und[0], 150))
                    return
                bad = bad or (r[1], t)
        if not tr:
            ck.undecided(rule, subj, 'no path')
        elif bad:
            ck.bad(rule, subj, bad[1].where or 'galgebra', bad[0], facts_of(bad[1]))
        else:
            ck.ok(rule, subj)

    def printer(self, m, kind):
        P = self.call(m, 'GaLatexPrinter' if kind == 'latex' else 'GaPrinter')
        self.A.H.settings(m, P)
        return P

    def plain(self, P):
        return self.FZ.freeze(P.fields['_settings'])

    def text(self, m, P, v):
        s = self.A.H.text(m, P, v, None)
        return s

    def scoped(self, src, other, kinds=('str', 'latex'), extra=()):
        """printing `src` changes nothing, and prints the same text again after printing `other`"""
        H = self.A.H
        for kind in kinds:
            def entry(m, kind=kind):
                env = {}
                v = self.C.entry(src, printer_Fmt=lambda m, get: self.fn(m, 'Fmt'))(m, env)
                o = self.C.entry(other)(m, {})
                P = self.printer(m, kind)
                s0, p0, v0 = self.state(m), self.plain(P), None
                ga = self.C.box[0]
                t1 = self.text(m, P, v)
                bad = self.compare(s0, self.state(m))
                if bad:
                    return bad
                try:
                    self.FZ.same(p0, self.plain(P), 'the settings of the printer')
                except Diff as e:
                    return [str(e)]
                self.text(m, P, o)
                t2 = self.text(m, P, v)
                t3 = self.text(m, self.printer(m, kind), v)
                for t, w in ((t2, 'after printing %s' % other), (t3, 'with a new printer')):
                    if isinstance(t1, Const) and isinstance(t, Const):
                        if t.v != t1.v:
                            return ['printed as %r, %s as %r' % (t1.v[:120], w, t.v[:120])]
                    elif not (t1 == t):
                        raise NoRead(short(t1, 100))
                return []
            self.run('scoped', '%s of %s, then %s' % ('LaTeX' if kind == 'latex' else 'text', src, other), entry)

    def quiet(self, src, fails=False, lazy=False):
        """evaluating the expression `src` changes no printing state, whether it returns or raises"""
        def entry(m):
            env = {}
            e = self.C.entry(src, **{x: (lambda m, get, x=x: self.fn(m, x)) for x in ('Fmt', 'latex', 'ostr', 'GaLatexPrinter', 'GaPrinter', 'print_latex', 'oprint', 'GAeval', 'isinteractive')})
            s0 = self.state(m)
            try:
                e(m, env)
            except PyRaise as x:
                if not fails:
                    raise
            return self.compare(s0, self.state(m))
        self.run('scoped', 'evaluating %s' % src, entry)


FMTS = ['(%s).Fmt(%s)' % (v, f) for v in ('A', 'v - k * e12', 'D', 's') for f in ('1', '2', '3', '2, "T"', 'title="T"')] + ['(%s).Fmt(%s)' % (v, f) for v in ('F', 'T2', 'T1') for f in ('1', '2', 'title="T"')] + ['(%s).Fmt(None)' % v for v in ('A', 'D')]
PLAIN = ['A', 'k * e1 - e2', 's', 'D', 'Dr', 'Sd', 'P', 'F', 'T2', 'ga.grad', 'ga.rgrad']


def scoped(R):
    for s in PLAIN + FMTS:
        R.scoped(s, 'A.Fmt(3)' if 'A' not in s else 'B.Fmt(2)')
    for s in PLAIN:
        R.scoped(s, 'T2.Fmt(2)')
    for s in ('A.Fmt(2).Fmt(3)', 'Fmt([A, v], 0)', 'Fmt((A, v), 1)', 'Fmt({k: A}, 1)', 'Fmt([A, B, v])', 'latex(A)', 'latex(A, galgebra_mv_fmt=2)', 'latex(D)', 'GaLatexPrinter.latex([A, B])', 'ostr(A)', 'ostr({k: A}, dict_mode=True)',
              'print_latex(A)', 'oprint("A", A, "B", B)', 'oprint({k: A}, dict_mode=True)', 'repr(A)', 'A.Fmt(2)', 'D.Fmt(2)', 'F.Fmt(2)', 'T2.Fmt(2)', 'isinteractive()'):
        R.quiet(s, fails='.Fmt(2).Fmt' in s)
    for s in ('Fmt("2")', 'Fmt(A)', 'GAeval("A", 3, 4)', 'A.Fmt(1, 2, 3)'):
        R.quiet(s, fails=True)


def const(v):
    return v.v if isinstance(v, Const) else v


def switches(R):
    H = R.A.H
    c = lambda x: Const(x)

    def settings(want):
        """errors: the shared settings are not these"""
        out = []
        for k, v in want.items():
            got = H.gset.get(k)
            eff = got if got is not None else NONE
            if v is None and (got is None or got == NONE or got == FALSE):
                continue
            if not isinstance(eff, Const) or eff.v != v or type(eff.v) is not type(v):
                if not isinstance(eff, Const):
                    raise NoRead(short(eff))
                out.append('the setting %s is %r instead of %r' % (k, eff.v, v))
        for k in H.gset:
            if k not in want:
                out.append('the setting %s is changed to %s' % (k, short(H.gset[k])))
        return out

    def fmt(name, module, args, kw, want):
        def entry(m):
            s0 = R.state(m)
            R.call(m, name, *map(c, args), module=module, **{k: c(v) for k, v in kw.items()})
            return settings(want) + R.compare(s0, R.state(m), allow=list(want) + ['Format_cnt', 'latex_flg', 'ipy', 'stdout', 'standard output'])
        R.run('switch', '%s(%s)' % (name, ', '.join([repr(a) for a in args] + ['%s=%r' % x for x in kw.items()])), entry)
    for name, module in (('Format', 'printer'), ('gFormat', 'gprinter')):
        for a, k, (f, d, i) in (((), {}, (True, True, 'full')), ((False,), {}, (False, True, 'full')), ((True, False), {}, (True, False, 'full')), ((), {'Dmode': False}, (True, False, 'full')), ((), {'Fmode': False, 'inverse': 'power'}, (False, True, 'power'))):
            fmt(name, module, a, k, {'omit_function_args': f, 'omit_partial_derivative_fraction': d, 'inv_trig_style': i})
    for a, (f, d) in (((), (True, True)), ((False,), (False, True)), ((True, False), (True, False))):
        fmt('LatexFormat', 'printer', a, {}, {'omit_function_args': f, 'omit_partial_derivative_fraction': d})
    for name in ('enhance_print', 'Eprint'):
        for k, (b, f, d) in (({}, ('blue', 'red', 'cyan')), ({'base': 'green'}, ('green', 'red', 'cyan')), ({'fct': None, 'deriv': 'black'}, ('blue', None, 'black'))):
            fmt(name, 'printer', (), k, {'basis_vector_color': b, 'function_color': f, 'derivative_color': d})
    for n in (1, 2, 3):
        fmt('Fmt', 'printer', (n,), {}, {'galgebra_mv_fmt': n})

    def again(m):
        R.call(m, 'enhance_print')
        R.call(m, 'enhance_print', NONE, NONE, NONE)
        return settings({'basis_vector_color': None, 'function_color': None, 'derivative_color': None})
    R.run('switch', 'enhance_print(), then enhance_print(None, None, None)', again)

    def twice(m):
        R.call(m, 'Format')
        R.call(m, 'Format', FALSE)
        return settings({'omit_function_args': False, 'omit_partial_derivative_fraction': True, 'inv_trig_style': 'full'})
    R.run('switch', 'Format(), then Format(False)', twice)
    # the formats set are the formats used
    for n in (2, 3):
        def used(m, n=n):
            e = R.C.entry('1 + e1 + e2 + e12')
            v = e(m, {})
            R.call(m, 'Fmt', c(n))
            a = R.text(m, R.printer(m, 'str'), v)
            b = R.text(m, R.printer(m, 'str'), R.C.entry('A.Fmt(%d)' % n, A=lambda m, g: v)(m, {}))
            if not (isinstance(a, Const) and isinstance(b, Const)):
                raise NoRead(short(a, 100))
            return [] if a.v == b.v else ['printed as %r, in format %d as %r' % (a.v, n, b.v)]
        R.run('switch', 'a multivector after Fmt(%d)' % n, used)


def capture(R):
    """the text captured between the start of redirection and tex()"""
    H = R.A.H

    def cls(m):
        return R.fn(m, 'GaLatexPrinter')

    def do(m, w, log):
        if w in ('Format', 'LatexFormat'):
            R.call(m, w)
        elif w == 'ipy':
            R.call(m, 'LatexFormat', ipy=TRUE)
        elif w in ('redirect', 'restore'):
            m.call(m.getattr(cls(m), w, None), [], {}, None)
        elif w == 'tex':
            log.append(R.call(m, 'tex'))
        elif w == 'tex letter':
            log.append(R.call(m, 'tex', paper=Const('letter')))
        elif w == 'tex landscape':
            log.append(R.call(m, 'tex', paper=Const('landscape')))
        elif w == 'print(A)':
            m.call(R.fn(m, 'print_latex'), [R.C.entry('s')(m, {})], {}, None)
        else:
            H.ext(m, 'builtins.print', [Const(w)], {}, None)

    def history(ops, want):
        """want: per tex() the words it contains, in order"""
        words = [w for w in ops if w.isupper()]

        def entry(m):
            log = []
            s0 = R.state(m)
            for w in ops:
                do(m, w, log)
            out = []
            for t, ws in zip(log, want):
                if not isinstance(t, Const):
                    raise NoRead(short(t, 200))
                got = re.findall('|'.join(words) if words else 'QQQQ', t.v)
                if got != ws:
                    out.append('tex() number %d returns the text %s instead of %s' % (log.index(t) + 1, got, ws))
                if t.v.count(r'\begin{document}') != 1 or t.v.count(r'\end{document}') != 1 or t.v.count(r'\documentclass') != 1:
                    out.append('tex() does not return one document')
            if H.stdout is not H.out0:
                out.append('standard output is not given back')
            st = R.state(m)
            if ops[-1].startswith('tex') or ops[-1] == 'restore':
                k = 'GaLatexPrinter.latex_flg'
                if k in s0.v and s0.v[k] != st.v.get(k):
                    out.append('LaTeX stays switched on')
            g = [k for k in s0.v if k == 'GaLatexPrinter.latex_str']
            if g and ops[-1].startswith('tex'):
                try:
                    R.FZ.same(s0.v[g[0]], st.v[g[0]], 'the captured text')
                except Diff as e:
                    out.append(str(e))
            loose = [x.v for x in H.out0.fields['text'].items if isinstance(x, Const) and x.v in words]
            exp = [w for i, w in enumerate(ops) if w.isupper() and not on(ops[:i])]
            if loose != exp:
                out.append('standard output receives %s instead of %s' % (loose, exp))
            return out
        R.run('capture', ', '.join(ops), entry)

    def on(ops):
        f = False
        seen = 0
        for w in ops:
            if w == 'Format':
                f, seen = (f if seen else True), 1
            elif w in ('LatexFormat', 'redirect'):
                f = True
            elif w == 'restore' or w.startswith('tex'):
                f = False
        return f
    history(['Format', 'AAA', 'tex'], [['AAA']])
    history(['Format', 'AAA', 'BBB', 'tex'], [['AAA', 'BBB']])
    history(['XXX', 'Format', 'AAA', 'tex', 'YYY'], [['AAA']])
    history(['Format', 'AAA', 'tex', 'redirect', 'BBB', 'tex'], [['AAA'], ['BBB']])
    history(['Format', 'AAA', 'tex', 'tex'], [['AAA'], []])
    history(['redirect', 'AAA', 'restore', 'XXX', 'redirect', 'BBB', 'tex'], [['AAA', 'BBB']])
    history(['redirect', 'AAA', 'restore', 'XXX', 'tex'], [['AAA']])
    history(['restore', 'XXX'], [])
    history(['Format', 'tex'], [[]])
    history(['Format', 'tex', 'redirect', 'AAA', 'tex'], [[], ['AAA']])
    history(['redirect', 'restore'], [])
    history(['redirect', 'restore', 'redirect', 'AAA', 'restore', 'tex'], [['AAA']])
    history(['restore', 'redirect', 'AAA', 'restore', 'restore', 'XXX'], [])
    history(['tex', 'XXX'], [[]])
    history(['Format', 'Format', 'AAA', 'tex', 'XXX'], [['AAA']])
    history(['Format', 'AAA', 'Format', 'BBB', 'tex', 'XXX'], [['AAA', 'BBB']])
    history(['LatexFormat', 'AAA', 'tex', 'XXX'], [['AAA']])
    history(['LatexFormat', 'AAA', 'tex', 'LatexFormat', 'BBB', 'tex', 'XXX'], [['AAA'], ['BBB']])
    history(['Format', 'AAA', 'tex letter', 'XXX'], [['AAA']])
    history(['Format', 'AAA', 'tex landscape', 'redirect', 'BBB', 'tex'], [['AAA'], ['BBB']])


def style(R):
    """objects are printed as text, and as LaTeX while LaTeX is switched on"""
    H = R.A.H
    for src in ('1 + k * e1 - e12', 'D', 'Sd', 's', 'A.Fmt(2)'):
        for ops, kind in (((), 'str'), (('Format',), 'latex'), (('Format', 'tex'), 'str'), (('LatexFormat',), 'latex'), (('Format', 'tex', 'LatexFormat'), 'latex')):
            def entry(m, src=src, ops=ops, kind=kind):
                v = R.C.entry(src)(m, {})
                for o in ops:
                    R.call(m, o)
                w = R.text(m, R.printer(m, kind), v)
                n = len(H.stdout.fields['text'].items)
                R.call(m, '_print', v)
                got = H.stdout.fields['text'].items[n:]
                if not isinstance(w, Const) or not all(isinstance(x, Const) for x in got):
                    raise NoRead(short(w, 100))
                t = ''.join(x.v for x in got)
                return [] if t.strip() == w.v.strip() else ['print writes %r instead of %r' % (t[:150], w.v[:150])]
            R.run('style', 'print(%s) %s' % (src, 'after ' + ', '.join(ops) if ops else ''), entry)


def precedence(R):
    H = R.A.H
    gd = lambda: Dct([[Const('X'), H.scal('k')]])
    get = lambda m: (m.module_name(R.mod('printer'), '_eval_global_dict'), m.module_name(R.mod('printer'), '_eval_parse_order'))

    def known(m):
        v = get(m)
        if not isinstance(v[1], Seq) or not v[1].concrete() or not all(isinstance(x, Const) for x in v[1].items):
            raise NoRead('precedence')
        return v[0], [x.v for x in v[1].items]
    ORD = [('<>|,^,*', ['<>|', '^', '*']), ('*,^,<>|', ['*', '^', '<>|']), ('^,*', ['^', '*']), ('*', ['*'])]
    for s, w in ORD:
        def good(m, s=s, w=w):
            d = gd()
            before = R.FZ.freeze(d)
            R.call(m, 'def_prec', d, Const(s))
            e, o = known(m)
            out = [] if o == w else ['the precedence is %s instead of %s' % (o, w)]
            if isinstance(e, Dct) and e is not d and R.FZ.freeze(e) != before:
                out.append('names are looked up in another dictionary')
            try:
                R.FZ.same(before, R.FZ.freeze(d), 'the dictionary')
            except Diff as x:
                out.append(str(x))
            return out
        R.run('precedence', 'def_prec(names, %r)' % s, good)

    def default(m):
        R.call(m, 'def_prec', gd())
        o = known(m)[1]
        return [] if o == ['<>|', '^', '*'] else ['the default precedence is %s' % o]
    R.run('precedence', 'def_prec(names)', default)
    for s in ('<>|,^,+', '<,>,|,^,*', '', '*,', '^ *', '^,*,x', '/'):
        for first in (None, '*,^,<>|'):
            def wrong(m, s=s, first=first):
                d = gd()
                if first:
                    R.call(m, 'def_prec', d, Const(first))
                e0, o0 = get(m)
                f0 = (R.FZ.freeze(e0), R.FZ.freeze(o0))
                try:
                    R.call(m, 'def_prec', Dct([[Const('Z'), H.scal('l')]]), Const(s))
                    return ['is accepted']
                except PyRaise:
                    pass
                e1, o1 = get(m)
                try:
                    R.FZ.same(f0[0], R.FZ.freeze(e1), 'the dictionary of names')
                    R.FZ.same(f0[1], R.FZ.freeze(o1), 'the precedence')
                except Diff as x:
                    return [str(x)]
                return []
            R.run('precedence', 'def_prec(names, %r) %s' % (s, 'after def_prec(names, %r)' % first if first else 'first'), wrong)
    for s in ('X', 'X|X^X', '(X*X)^X', 'X*X|X', '(X', 'X)'):
        def ev(m, s=s):
            d = gd()
            R.call(m, 'def_prec', d, Const('^,<>|,*'))
            before, s0 = R.FZ.freeze(d), R.state(m)
            try:
                R.call(m, 'GAeval', Const(s))
            except PyRaise:
                pass
            try:
                R.FZ.same(before, R.FZ.freeze(d), 'the dictionary of names')
            except Diff as x:
                return [str(x)]
            return R.compare(s0, R.state(m))
        R.run('precedence', 'GAeval(%r)' % s, ev)


def run(ck, W):
    ck.rule('scoped', 'printing and formatting leave the shared printer settings, the settings of the printer, standard output, captured text and module variables as they were, and a text does not depend on what was printed before')
    ck.rule('switch', 'the documented switches set exactly the settings they are given')
    ck.rule('capture', 'text is captured from the start of redirection to the next tex(), which returns it once and gives standard output back')
    ck.rule('style', 'print writes the LaTeX of an object exactly while LaTeX is switched on, and its text otherwise')
    ck.rule('precedence', 'a precedence that is accepted is the one in force; a rejected one, and an evaluation, leave precedence and names alone')
    C0 = cconst
    for g, nm in (([[C0(2), {}], [{}, C0(-3)]], 'orthogonal metric, n=2'), ([[C0(2), C0(1)], [C0(1), C0(3)]], 'oblique metric, n=2')):
        A = Alg(ck, W, 2, g, ['x', 'y'], nm, H=IRec)
        A.H.reset()
        R = Scoped(ck, A)
        scoped(R)
        if 'oblique' in nm:
            continue
        switches(R)
        capture(R)
        precedence(R)
        style(R)
    return ck.finish('Abstract interpretation of printing and of the printing switches with a model of standard output and of the settings shared by all printers; the global state is compared before and after every call.', min_decided=50)
