"""C02: operations leave their operands, the algebra and the global state as they were."""
from rules.concrule import *
from rules.curved import f2
from sa.conc import Build
from sa.vals import Each
from rules.c25 import FnConc, fn

SKIP = ('linear_expand', 'linear_expand_terms', 'Mv.characterise_Mv', 'Ga.grades', 'Ga.scalar_part', 'Ga.get_grade', 'Ga.even_odd', 'collect')
# classification of a value, filled in when it is asked for
DERIVED = {'i_grade', 'grades', 'blade_flg', 'versor_flg', 'char_Mv', 'is_blade_rep', 'obj'}
# settings: unset is a setting too
SETTING = {'n_range', 'r_symbols', 'coords', 'norm', 'connect_flg', 'dslot', 'Isq', 'g', 'n', 'is_ortho', 'basis', 'title', 'recp', 'par_coords', 'sing_flg', 'wedge_print', 'dot_mode'}


class RecMixin:
    """records assignments to module globals and class attributes; functions of expressions are atoms"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.glob = {}

    def effect(self, m, kind, target, name, value, node):
        if kind == 'global' or kind == 'setattr' and isinstance(target, (Cls, Mod)):
            if kind == 'global':
                mod, _, nm = name.rpartition('.')
                key, store = (mod, nm), m.globals
            elif isinstance(target, Cls):
                key, store = (target.ci.fq, name), m.classattrs
            else:
                key, store = (target.name, name), m.globals
            if key not in self.glob:
                old = store.get(key)
                if old is None:
                    try:
                        old = m.getattr(target, name, None) if target is not None else m.module_name(self.W.prog.modules[mod], nm)
                    except (PyRaise, KeyError):
                        old = None
                self.glob[key] = (store, old, m.where(node))
        return super().effect(m, kind, target, name, value, node)

    def matattr(self, m, o, name, node):
        if name == 'is_positive_definite':
            return FALSE
        return super().matattr(m, o, name, node)

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if name.startswith('sympy') and sh in ('cos', 'sin', 'cosh', 'sinh', 'exp', 'Abs', 'Max', 'Min') and args and not kw and all(isinstance(x, (T, Const)) and self.coef(x) is not None for x in args):
            return self.scal('%s(%s)' % (sh, ','.join(show_c(self.coef(x)) for x in args)))
        return super().ext(m, name, args, kw, node)

    def compare(self, m, op, l, r, node):
        for a, b in ((l, r), (r, l)):
            if op in ('==', '!=') and isinstance(a, Const) and isinstance(a.v, bool) and isinstance(b, T) and b.op in ('<', '>', '<=', '>='):
                return Const(op == '!=')
        return super().compare(m, op, l, r, node)


class Rec(RecMixin, FnConc):
    pass


class RecBuild(RecMixin, FnConc, Build):
    pass


class Diff(Exception):
    pass


class Frozen:
    def __init__(self, A):
        self.A, self.H, self.W = A, A.H, A.W

    def freeze(self, v, top=None, depth=0):
        W, H = self.W, self.H
        if isinstance(v, Obj):
            if H.is_matrix(v):
                return ('matrix', [[self.freeze(x) for x in r] for r in H.mdata(v)])
            mro = v.cls.mro() if isinstance(v.cls, ClassInfo) else []
            if W.Ga in mro and v is not top:
                return ('ga', id(v))
            if W.Mv in mro:
                d = H.lin(v)
                return ('mv', id(v.fields.get('Ga')), d if d is not None else v.fields['obj'].key(), {k: self.freeze(x, depth=depth + 1) for k, x in v.fields.items() if k not in DERIVED and k != 'Ga'})
            if depth > 6:
                return ('obj', id(v))
            return ('object', v.cls.name if isinstance(v.cls, ClassInfo) else str(v.cls), {k: self.freeze(x, depth=depth + 1) for k, x in v.fields.items()}, v is top)
        if isinstance(v, Seq):
            return ('seq', v.kind, [self.freeze(x, depth=depth + 1) for x in v.items])
        if isinstance(v, Dct):
            return ('dict', [(self.freeze(i[0], depth=depth + 1), self.freeze(i[1], depth=depth + 1)) for i in v.items])
        if isinstance(v, Each):
            return ('each', self.freeze(v.v, depth=depth + 1) if hasattr(v, 'v') else repr(v))
        if isinstance(v, (T, Const)):
            if not (isinstance(v, Const) and (v.v is None or isinstance(v.v, (bool, str)))):
                d = H.lin(v)
                if d is not None:
                    return ('value', d)
            return ('key', v.key(), short(v, 60))
        try:
            return ('key', v.key(), short(v, 60))
        except Exception:
            return ('id', id(v))

    def say(self, f):
        if f[0] == 'value':
            return show(f[1])
        if f[0] == 'mv':
            return show(f[2]) if isinstance(f[2], dict) else 'another multivector'
        if f[0] == 'key':
            return f[2]
        if f[0] == 'seq':
            return '[%s]' % ', '.join(self.say(x) for x in f[2])[:150]
        return f[0]

    def same(self, a, b, path, inga=False, field=None):
        """raise Diff(path: old, new)"""
        def no():
            raise Diff('%s was %s and is %s' % (path, self.say(a), self.say(b)))
        if a[0] == 'key' and a[2] == 'None' and b != a and field is not None and field not in SETTING:
            return
        if a[0] != b[0]:
            no()
        k = a[0]
        if k in ('value', 'matrix'):
            if k == 'value' and not self.A.eq(a[1], b[1]):
                no()
            if k == 'matrix':
                if [len(r) for r in a[1]] != [len(r) for r in b[1]]:
                    no()
                for i, (r, s) in enumerate(zip(a[1], b[1])):
                    for j, (x, y) in enumerate(zip(r, s)):
                        self.same(x, y, '%s[%d,%d]' % (path, i, j))
        elif k == 'mv':
            if a[1] != b[1]:
                no()
            if isinstance(a[2], dict) and isinstance(b[2], dict):
                if not deq(a[2], b[2]):
                    no()
            elif a[2] != b[2]:
                no()
            for f, x in a[3].items():
                if f not in b[3]:
                    raise Diff('%s.%s is gone' % (path, f))
                self.same(x, b[3][f], '%s.%s' % (path, f), inga, f)
        elif k == 'object':
            if a[1] != b[1]:
                no()
            for f, x in a[2].items():
                if f not in b[2]:
                    raise Diff('%s.%s is gone' % (path, f))
                self.same(x, b[2][f], '%s.%s' % (path, f), inga or a[3], f)
        elif k == 'seq':
            if a[1] != b[1]:
                no()
            if len(a[2]) != len(b[2]):
                if inga and field not in SETTING and len(a[2]) < len(b[2]):
                    for i, (x, y) in enumerate(zip(a[2], b[2])):
                        self.same(x, y, '%s[%d]' % (path, i), inga)
                    return      # a list of things computed so far
                no()
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self.same(x, y, '%s[%d]' % (path, i), inga)
        elif k == 'dict':
            for x, y in a[1]:
                hit = [w for v, w in b[1] if v == x]
                if not hit:
                    if x[0] in ('value', 'key') and all(v[0] in ('value', 'key') for v, w in b[1]):
                        hit = [w for v, w in b[1] if v[0] == x[0] == 'value' and self.A.eq(v[1], x[1])]
                    if not hit:
                        raise Diff('%s lost the entry %s' % (path, self.say(x)))
                self.same(y, hit[0], '%s[%s]' % (path, self.say(x)), inga)
            if not inga and len(a[1]) != len(b[1]):
                raise Diff('%s has %d entries instead of %d' % (path, len(b[1]), len(a[1])))
        elif a[:2] != b[:2]:
            no()


def run(ck, W):
    ck.rule('operands', 'after an operation, also one that fails, its operands have the value they had')
    ck.rule('algebra', 'after an operation, also one that fails, the algebra has the settings, basis, metric and table entries it had')
    ck.rule('global', 'after an operation, also one that fails, module variables and class attributes have the value they had')
    for n, g, nm in ((2, gatoms(2, False), 'general metric, n=2'), (3, gatoms(3, True), 'orthogonal metric, n=3')):
        one(ck, W, n, g, nm)
    G = f2(2, ortho=True)
    one(ck, W, 2, G, 'orthogonal coordinates, n=2', cls=RecBuild)
    printing(ck, W)
    return ck.finish('Abstract interpretation of every public operation on algebra objects with an effect log: the state reachable from the operands and the algebra, and every assigned module '
                     'variable or class attribute, is compared by value before and after, on normal and on exceptional exit.', min_decided=100)


def printing(ck, W):
    from rules.c12 import PRec, Printing, OPS, VALUES, MAPS
    A = Alg(ck, W, 2, [[cconst(2), cconst(1)], [cconst(1), cconst(3)]], ['x', 'y'], 'oblique metric, n=2', H=PRec)
    FZ = Frozen(A)

    class Same:
        def value(self, R, m, v):
            return v, FZ.freeze(v, v)

        def check(self, R, m, val, s, kind):
            try:
                FZ.same(val[1], FZ.freeze(val[0], val[0]), 'the printed object')
            except Diff as e:
                return str(e)
    R = Printing(ck, A)
    for s in VALUES[:8] + OPS + MAPS[:3] + ['Sdop([(x, P * P), (3, Q)])', 'Sdop([(k, P * Q), (l, P), (1, Pdop({}))])', 'ga.dop([e12, e1], [P * P, Q])', 'T2', 'A.base_rep()']:
        R.run(s, Same(), what='operands')


def one(ck, W, n, g, nm, co=('x', 'y', 'z'), cls=Rec, judge=None):
    A = Alg(ck, W, n, g, co[:n], nm, H=lambda W, n, g, c: cls(W, n, g, c, skip=SKIP))
    H, cl = A.H, A.H.cl
    S = cl.subsets
    R = range(n)
    FZ = Frozen(A)
    box = []
    lmod, dmod, mmod = W.prog.module('lt'), W.prog.module('dop'), W.prog.module('mv')
    coord = lambda i: H.scal(co[i])
    x0 = H.coef(coord(0))

    def setup(m):
        if cls is RecBuild:
            ga = H.built(m)
            m.getattr(ga, '_XOX', None)
            return ga
        ga = H.ga()
        s = H.sym('s')
        ga.fields['i'] = H.mvobj(ga, {S[-1]: s}, 'I')
        ga.fields['i_inv'] = H.mvobj(ga, {S[-1]: s}, 'Iinv')
        m.call_method(ga, '_build_grads', [], {}, None)
        return ga
    gen = lambda root, ws=S: {w: cmul(H.sym(root + ''.join(map(str, w))), x0) for w in ws}
    V1 = [w for w in S if len(w) == 1]
    L0 = [{(j,): H.sym('l%d%d' % (j, i)) for j in R} for i in R]

    class Env:
        def __init__(self, m):
            if not box:
                A.I.run(lambda m: box.append(setup(m)))
            self.m, self.ga = m, box[0]
            self.ops = {}

        def keep(self, name, v):
            self.ops[name] = v
            return v

        def mv(self, name='A', ws=S, base=False, d=None):
            return self.keep(name, (H.basemv if base else H.mvobj)(self.ga, gen(name.lower(), ws) if d is None else d, name))

        def vec(self, name='v'):
            return self.mv(name, V1)

        def lst(self, name, xs, kind='list'):
            return self.keep(name, Seq(kind, list(xs)))

        def dct(self):
            return self.keep('dictionary', Dct([[H.blade((j,)), H.unlin(L0[j])] for j in R]))

        def lt(self, name='F'):
            return self.keep(name, self.m.call(self.m.getattr(self.ga, 'lt', None), [Dct([[H.blade((j,)), H.unlin(L0[j])] for j in R])], {}, None))

        def mlt(self, name='T', r=2):
            ps = ['u', 'w', 'p'][:r]

            def f(m, a, k, nd):
                v = [H.lin(x) for x in a]
                t = {}
                for i in R:
                    for j in R:
                        t = cadd(t, cmul(H.sym('t%d%d' % (i, j)), cmul(v[0].get((i,), {}), v[1].get((j,), {}) if r > 1 else cconst(1))))
                return H.cval(t)
            return self.keep(name, self.m.call(self.m.module_name(lmod, 'Mlt'), [fn(ps, Prim('T(%s)' % ','.join(ps), f).f if False else f), self.ga], {}, None))

        def pdop(self, i=0, name='P'):
            return self.keep(name, self.m.call(self.m.module_name(dmod, 'Pdop'), [coord(i)], {}, None))

        def sdop(self, name='S'):
            return self.keep(name, self.m.call(self.m.module_name(dmod, 'Sdop'), [Seq('list', [Seq('tuple', [H.scal('c1'), self.pdop(0, name + ' P')]), Seq('tuple', [coord(0), self.pdop(1, name + ' Q')])])], {}, None))

        def dop(self, name='D', base=False):
            return self.keep(name, self.m.call(self.m.getattr(self.ga, 'dop', None), [Seq('list', [self.mv(name.lower() + 'c', base=base), self.mv(name.lower() + 'k', V1)]), Seq('list', [self.pdop(0, name + ' P'), self.pdop(1, name + ' Q')])], {}, None))

    OP = lambda m, op, a, b: m.compare_op(op, a, b, None) if op in ('<', '>', '==', '!=') else m.binop(op, a, b, None)

    def pure(subj, op, where_=None, fails=False):
        """op(m, E) builds operands with E.* and returns a thunk"""
        subj_ = '%s [%s]' % (subj, A.name)
        if judge is not None:
            return judge(A, Env, subj_, op, where_, fails)

        def entry(m):
            H.glob = {}
            E = Env(m)
            go = op(m, E)
            # the first use may fill lazily computed fields
            before = {k: FZ.freeze(v, v) for k, v in E.ops.items()}
            gb = FZ.freeze(E.ga, E.ga)
            H.glob = {}
            end = 'returns'
            try:
                v = go()
                if is_notimpl(v):
                    end = 'is rejected'
            except PyRaise as e:
                end = 'raises'
                m.c02exc = '%s %s %s' % (e.cname, short(e.exc, 100), e.where)
            out = []
            for k in before:
                v = E.ops[k]
                try:
                    FZ.same(before[k], FZ.freeze(v, v), k)
                except Diff as e:
                    out.append(('operands', str(e)))
            try:
                FZ.same(gb, FZ.freeze(E.ga, E.ga), 'ga')
            except Diff as e:
                out.append(('algebra', str(e)))
                box.clear()
            for (mod, name), (store, old, wh) in H.glob.items():
                new = store.get((mod, name))
                try:
                    if old is None:
                        raise Diff('%s.%s is assigned (%s)' % (mod, name, wh))
                    FZ.same(FZ.freeze(old), FZ.freeze(new), '%s.%s' % (mod, name))
                except Diff as e:
                    out.append(('global', str(e)))
            m.c02 = (end, out)
            return NONE
        try:
            tr = A.I.run(entry)
        except RecursionError:
            ck.undecided('operands', subj_, 'recursion')
            return
        for rule in ('operands', 'algebra', 'global'):
            n_ok = 0
            bad = None
            for t in tr:
                res = getattr(t.m, 'c02', None) if hasattr(t, 'm') else None
                if t.kind != 'return' or res is None:
                    bad = ('undecided', '%s %s %s %s' % (t.kind, short(t.exc, 100), t.where, [short(c, 100) for c, v in tr[0].facts][:4]))
                    break
                end, out = res
                und = [c for c, v in t.facts if not isinstance(c, Const)]
                ds = [d for r, d in out if r == rule]
                if ds and not und:
                    bad = ('bad', ds[0], t)
                    break
                if ds:
                    bad = ('undecided', 'undecided condition %s' % short(und[0], 150))
                elif end == 'raises' and not fails:
                    bad = bad or ('undecided', 'the operation raises: not exercised %s' % t.m.c02exc)
                elif end != 'raises' and fails:
                    bad = bad or ('undecided', 'the operation does not fail')
                n_ok += 1
            if bad and bad[0] == 'bad':
                ck.bad(rule, subj_, where_ or bad[2].where or 'galgebra', 'after it %s' % bad[1], facts_of(bad[2]))
            elif bad:
                ck.undecided(rule, subj_, bad[1])
            elif n_ok:
                ck.ok(rule, subj_)
    wh = lambda f: where(W, W.Mv, f)
    bases = [False] if H.ortho else [False, True]
    # ---- multivectors
    un = [(f, ()) for f in ('rev', 'ccon', 'g_invol', 'even', 'odd', 'scalar', 'components', 'blade_coefs', 'list', 'pure_grade', 'is_scalar', 'is_vector', 'is_zero', 'is_base', 'dual', 'undual', 'qform', 'norm2', 'mag2', 'expand',
                            '__neg__', 'base_rep', 'blade_rep', 'characterise_Mv', 'grade', 'trigsimp')] + [('grade', (1,)), ('get_grade', (2,)), ('__getitem__', (0,)), ('get_coefs', (1,)), ('__pow__', (2,)), ('__pow__', (0,))]
    for base in bases:
        sfx = ' in base representation' if base else ''
        for f, a in un:
            for ws, kn in ((S, 'general'), ([w for w in S if len(w) == 2], 'bivector')):
                if f == 'get_coefs':
                    ws, kn = V1, 'vector'
                pure('%s%s of a %s multivector%s' % (f.strip('_'), list(a) if a else '', kn, sfx), lambda m, E, f=f, a=a, ws=ws: (lambda X: lambda: m.call_method(X, f, [Const(x) for x in a], {}, None))(E.mv('A', ws, base)), wh(f))
        for f in ('is_blade', 'is_versor', 'inv', 'hitzer_inverse', 'shirokov_inverse', 'exp', 'norm', 'mag'):
            for kn, d in (('bivector', {(0, 1): H.sym('a')}), ('vector', {(0,): H.sym('a'), (1,): H.sym('b')})):
                pure('%s of a %s%s' % (f, kn, sfx), lambda m, E, f=f, d=d: (lambda X: lambda: m.call_method(X, f, [], {}, None))(E.mv('A', d=d, base=base)), wh(f))
        pure('get_coefs of another grade' + sfx, lambda m, E: (lambda X: lambda: m.call_method(X, 'get_coefs', [Const(1)], {}, None))(E.mv('A', base=base)), wh('get_coefs'), fails=True)
        pure('diff' + sfx, lambda m, E: (lambda X: lambda: m.call_method(X, 'diff', [coord(0)], {}, None))(E.mv('A', base=base)), wh('diff'))
        pure('pDiff with a list of orders' + sfx, lambda m, E: (lambda X, l: lambda: m.call_method(E.ga, 'pDiff', [X, l], {}, None))(E.mv('A', base=base), E.lst('orders', [Const(1)] * n)), where(W, W.Ga, 'pDiff'))
        sq = Prim('square', lambda m, a, k, nd: H.cval(cmul(H.coef(a[0]), H.coef(a[0]))))

        def boom(m, a, k, nd):
            raise PyRaise(Const('given function fails'), 'ValueError', nd, m.where(nd))
        bad = Prim('failing', boom)
        pure('func' + sfx, lambda m, E: (lambda X: lambda: m.call_method(X, 'func', [sq], {}, None))(E.mv('A', base=base)), wh('func'))
        pure('func with a failing function' + sfx, lambda m, E: (lambda X: lambda: m.call_method(X, 'func', [bad], {}, None))(E.mv('A', base=base)), wh('func'), fails=True)
        pure('simplify with a list of modes' + sfx, lambda m, E: (lambda X, l: lambda: m.call_method(X, 'simplify', [l], {}, None))(E.mv('A', base=base), E.lst('modes', [sq, sq])), wh('simplify'))
        pure('simplify with one mode' + sfx, lambda m, E: (lambda X: lambda: m.call_method(X, 'simplify', [sq], {}, None))(E.mv('A', base=base)), wh('simplify'))
        pure('subs' + sfx, lambda m, E: (lambda X: lambda: m.call_method(X, 'subs', [coord(0), H.scal('z')], {}, None))(E.mv('A', base=base)), wh('subs'))
        pure('subs with a dictionary' + sfx, lambda m, E: (lambda X, d: lambda: m.call_method(X, 'subs', [d], {}, None))(E.mv('A', base=base), E.keep('dictionary', Dct([[coord(0), H.scal('z')]]))), wh('subs'))
        for f in ('proj', 'blade_coefs'):
            pure('%s with a list of blades%s' % (f, sfx), lambda m, E, f=f: (lambda X, l: lambda: m.call_method(X, f, [l], {}, None))(E.mv('A', base=base), E.lst('blades', [E.mv('b1', d={(0,): cconst(1)}), E.mv('b2', d={(0, 1): cconst(1)}, base=base)])), wh(f))
        pure('a new multivector made from it' + sfx, lambda m, E: (lambda X: lambda: m.call_method(m.call(m.module_name(mmod, 'Mv'), [X], {'ga': E.ga}, None), 'set_coef', [Const(1), Const(0), H.scal('new')], {}, None))(E.mv('A', base=base)), wh('__init__'))
        for f in (('base_rep',) if not base else ('blade_rep',)):
            if H.ortho:
                continue
            pure('writing to its %s' % f, lambda m, E, f=f: (lambda X: lambda: m.call_method(m.call_method(X, f, [], {}, None), 'set_coef', [Const(1), Const(0), H.scal('new')], {}, None))(E.mv('A', base=base)), wh(f))
        pure('writing to its negative' + sfx, lambda m, E: (lambda X: lambda: m.call_method(m.call_method(X, '__neg__', [], {}, None), 'set_coef', [Const(1), Const(0), H.scal('new')], {}, None))(E.mv('A', base=base)), wh('__neg__'))
        for r in ('+', '-', '*', '/', '^', '|', '<', '>'):
            pure('multivector%s %s scalar' % (sfx, r), lambda m, E, r=r: (lambda X: lambda: OP(m, r, X, H.scal('k')))(E.mv('A', base=base)))
            if r != '/':
                pure('scalar %s multivector%s' % (r, sfx), lambda m, E, r=r: (lambda X: lambda: OP(m, r, H.scal('k'), X))(E.mv('A', base=base)))
        for b2 in bases:
            s2 = sfx + (' with base representation' if b2 else '')
            for r in ('+', '-', '*', '^', '|', '<', '>', '<<', '>>', '==', '!='):
                pure('multivector %s multivector%s' % (r, s2), lambda m, E, r=r: (lambda X, Y: lambda: OP(m, r, X, Y))(E.mv('A', base=base), E.mv('B', base=b2)))
            for f in ('sp', 'project_in_blade', 'reflect_in_blade'):
                pure('%s%s' % (f, s2), lambda m, E, f=f: (lambda X, Y: lambda: m.call_method(X, f, [Y], {}, None))(E.mv('A', base=base), E.mv('B', d={(0, 1): H.sym('b')}, base=b2)), wh(f))
            for f in ('compare', 'proj', 'refl'):
                pure('function %s%s' % (f, s2), lambda m, E, f=f: (lambda X, Y: lambda: m.call(m.module_name(mmod, f), [X, Y] if f == 'compare' else [Y, X], {}, None))(E.mv('A', base=base), E.mv('B', d={(0, 1): H.sym('b')}, base=b2)))
        # operators in place
        for r in ('+', '-', '*', '^'):
            pure('multivector %s= multivector%s' % (r, sfx), lambda m, E, r=r: (lambda X, Y: lambda: m.binop(r, X, Y, None, True))(E.mv('A', base=base), E.mv('B')))
    # ---- the algebra
    gw = lambda f: where(W, W.Ga, f)
    for f, a in (('mv', ()), ('mvr', ()), ('grads', ()), ('I', ()), ('E', ()), ('X', ()), ('Xvec', ()), ('mv', ('A', 'mv')), ('mv', ('A', 'vector')), ('mv', ('A B', 'vector')), ('mv', ('A', 'grade', 2)), ('mv', ('A', 'even')), ('mv', ('A', 2))):
        if W.Ga.lookup(f) is None:
            continue
        pure('ga.%s%s' % (f, list(a) if a else ''), lambda m, E, f=f, a=a: lambda: m.call_method(E.ga, f, [Const(x) for x in a], {}, None), gw(f))
        if f == 'mv' and a:
            pure('ga.%s%s as a field' % (f, list(a)), lambda m, E, f=f, a=a: lambda: m.call_method(E.ga, f, [Const(x) for x in a], {'f': TRUE}, None), gw(f))
    pure('ga.mv from a list', lambda m, E: (lambda l: lambda: m.call_method(E.ga, 'mv', [l, Const('vector')], {}, None))(E.lst('coefficients', [H.scal('c%d' % i) for i in R])), gw('mv'))
    pure('ga.mv from a list of wrong size', lambda m, E: (lambda l: lambda: m.call_method(E.ga, 'mv', [l, Const('vector')], {}, None))(E.lst('coefficients', [H.scal('c%d' % i) for i in range(n + 1)])), gw('mv'), fails=True)
    pure('ga.mv with an unknown category', lambda m, E: lambda: m.call_method(E.ga, 'mv', [Const('A'), Const('nonsense')], {}, None), gw('mv'), fails=True)
    for f in ('r_basis', 'r_basis_mv', 'r_basis_dict', 'g_inv', 'e_sq', 'de', 'dg', 'mv_blades', 'mv_basis', 'bases', 'blade_expansion_dict', 'base_expansion_dict', 'lt_coords', 'lt_x', 'g_adj', 'detg'):
        if W.Ga.lookup(f) is None or H.ortho and f in ('bases', 'blade_expansion_dict', 'base_expansion_dict'):
            continue
        pure('ga.%s' % f, lambda m, E, f=f: lambda: m.getattr(E.ga, f, None), gw(f))
    for f in ('grade_decomposition', 'split_multivector', 'remove_scalar_part', 'scalar_part', 'reverse'):
        pure('ga.%s' % f, lambda m, E, f=f: (lambda X: lambda: m.call_method(E.ga, f, [X if f != 'reverse' else X.fields['obj']], {}, None))(E.mv('A')), gw(f))
    pure('ga.ReciprocalFrame', lambda m, E: (lambda l: lambda: m.call_method(E.ga, 'ReciprocalFrame', [l], {}, None))(E.lst('frame', [E.mv('f%d' % i, V1) for i in range(2)])), gw('ReciprocalFrame'))
    pure('ga.ReciprocalFrame, appended', lambda m, E: (lambda l: lambda: m.call_method(E.ga, 'ReciprocalFrame', [l, Const('append')], {}, None))(E.lst('frame', [E.mv('f%d' % i, V1) for i in range(2)])), gw('ReciprocalFrame'))
    for md in (1, 2):
        pure('ga.Christoffel_symbols(%d)' % md, lambda m, E, md=md: lambda: m.call_method(E.ga, 'Christoffel_symbols', [Const(md)], {}, None), gw('Christoffel_symbols'))
    pure('ga.make_grad', lambda m, E: (lambda X: lambda: m.call_method(E.ga, 'make_grad', [X], {}, None))(E.vec()), gw('make_grad'))
    pure('ga.make_grad, component form', lambda m, E: (lambda X: lambda: m.call_method(E.ga, 'make_grad', [X, TRUE], {}, None))(E.vec()), gw('make_grad'))
    # ---- differential operators
    for r in ('+', '-', '*', '^', '|', '<', '>', '=='):
        pure('operator %s operator' % r, lambda m, E, r=r: (lambda D, Q: lambda: OP(m, r, D, Q))(E.dop('D'), E.dop('Q')))
        if r in '*^|<>':
            for base in bases:
                pure('operator %s multivector%s' % (r, ' in base representation' if base else ''), lambda m, E, r=r: (lambda D, X: lambda: OP(m, r, D, X))(E.dop('D', base), E.mv('A', base=base)))
                pure('multivector %s operator%s' % (r, ' in base representation' if base else ''), lambda m, E, r=r: (lambda D, X: lambda: OP(m, r, X, D))(E.dop('D', base), E.mv('A', base=base)))
            for gr in ('grad', 'rgrad'):
                pure('%s %s multivector' % (gr, r), lambda m, E, r=r, gr=gr: (lambda X: lambda: OP(m, r, m.getattr(E.ga, gr, None), X) if gr == 'grad' else OP(m, r, X, m.getattr(E.ga, gr, None)))(E.mv('A')))
        if r in '+-*':
            pure('scalar operator %s scalar operator' % r, lambda m, E, r=r: (lambda D, Q: lambda: OP(m, r, D, Q))(E.sdop('S'), E.sdop('U')))
    pure('scalar operator times multivector', lambda m, E: (lambda D, X: lambda: OP(m, '*', D, X))(E.sdop('S'), E.mv('A')))
    pure('scalar operator times expression', lambda m, E: (lambda D: lambda: OP(m, '*', D, coord(0)))(E.sdop('S')))
    pure('partial derivative of a multivector', lambda m, E: (lambda D, X: lambda: m.call(D, [X], {}, None))(E.pdop(), E.mv('A')))
    pure('partial derivative times partial derivative', lambda m, E: (lambda D, X: lambda: OP(m, '*', D, X))(E.pdop(), E.pdop(1, 'Q')))
    for f in ('TSimplify', 'components', 'is_scalar', '__neg__', 'consolidate_coefs'):
        pure('%s of an operator' % f.strip('_'), lambda m, E, f=f: (lambda D: lambda: m.call_method(D, f, [], {}, None))(E.dop('D')), where(W, W.Dop, f))
    pure('simplify of an operator', lambda m, E: (lambda D: lambda: m.call_method(D, 'simplify', [sq], {}, None))(E.dop('D')), where(W, W.Dop, 'simplify'))
    pure('an operator made from lists', lambda m, E: (lambda a, b: lambda: m.call(m.getattr(E.ga, 'dop', None), [a, b], {}, None))(E.lst('coefficients', [E.mv('c0'), E.mv('c1')]), E.lst('derivatives', [E.pdop(0), E.pdop(1, 'Q')])))
    pure('an operator made from terms', lambda m, E: (lambda a: lambda: m.call(m.getattr(E.ga, 'dop', None), [a], {}, None))(E.lst('terms', [Seq('tuple', [E.mv('c0'), E.pdop(0)]), Seq('tuple', [E.mv('c1'), E.pdop(0, 'Q')])])))
    pure('a partial derivative made from a dictionary', lambda m, E: (lambda d: lambda: OP(m, '*', m.call(m.module_name(dmod, 'Pdop'), [d], {}, None), E.pdop(0)))(E.keep('dictionary', Dct([[coord(0), Const(1)], [coord(1), Const(2)]]))))
    # ---- transformations
    lw = lambda f: where(W, W.Lt, f)
    mkl = lambda m, E, a, **kw: m.call(m.getattr(E.ga, 'lt', None), [a], kw, None)
    pure('a transformation made from a dictionary', lambda m, E: (lambda d: lambda: m.call_method(mkl(m, E, d), 'matrix', [], {}, None))(E.dct()), lw('__init__'))
    pure('a transformation made from images', lambda m, E: (lambda d: lambda: mkl(m, E, d))(E.lst('images', [E.mv('i%d' % i, V1) for i in R])), lw('__init__'))
    pure('a transformation made from rows', lambda m, E: (lambda d: lambda: mkl(m, E, d))(E.lst('rows', [Seq('list', [H.scal('l%d%d' % (i, j)) for j in R]) for i in R])), lw('__init__'))
    pure('a transformation made from a matrix', lambda m, E: (lambda d: lambda: mkl(m, E, d))(E.keep('matrix', H.matrix([[H.sym('l%d%d' % (i, j)) for j in R] for i in R]))), lw('__init__'))
    pure('a transformation made from a versor', lambda m, E: (lambda d: lambda: mkl(m, E, d))(E.mv('R', d={(): cconst(2), (0, 1): cconst(3)})), lw('__init__'))
    pure('a transformation made from a failing function', lambda m, E: lambda: mkl(m, E, bad), lw('__init__'), fails=True)
    pure('a transformation made from a name', lambda m, E: lambda: mkl(m, E, Const('f')), lw('__init__'))
    for base in bases:
        for ws, kn in ((S, 'general'), (V1, 'vector')):
            pure('a transformation of a %s multivector%s' % (kn, ' in base representation' if base else ''), lambda m, E, ws=ws: (lambda F, X: lambda: m.call(F, [X], {}, None))(E.lt(), E.mv('A', ws, base=base)), lw('__call__'))
    for f in ('det', 'tr', 'adj', 'inv', 'is_singular', 'matrix'):
        pure('%s of a transformation' % f, lambda m, E, f=f: (lambda F: lambda: m.call_method(F, f, [], {}, None))(E.lt()), lw(f))
    for r in ('+', '-', '*'):
        pure('transformation %s transformation' % r, lambda m, E, r=r: (lambda F, G: lambda: OP(m, r, F, G))(E.lt(), E.lt('G')), lw('__add__'))
    pure('transformation * scalar', lambda m, E: (lambda F: lambda: OP(m, '*', F, H.scal('k')))(E.lt()), lw('__mul__'))
    pure('scalar * transformation', lambda m, E: (lambda F: lambda: OP(m, '*', H.scal('k'), F))(E.lt()), lw('__rmul__'))
    pure('using the sum of transformations', lambda m, E: (lambda F, G, X: lambda: m.call(OP(m, '+', F, G), [X], {}, None))(E.lt(), E.lt('G'), E.mv('A')), lw('__add__'))
    # ---- tensors
    tw = lambda f: where(W, W.Mlt, f)
    pure('a tensor applied to vectors', lambda m, E: (lambda T, u, v: lambda: m.call(T, [u, v], {}, None))(E.mlt(), E.vec('u'), E.vec('v')), tw('__call__'))
    for f, a in (('pdiff', (1,)), ('contract', (1, 2)), ('dd', ()), ('cderiv', ()), ('comps', ()), ('expand', ())):
        pure('%s of a tensor' % f, lambda m, E, f=f, a=a: (lambda T: lambda: m.call_method(T, f, [Const(x) for x in a], {}, None))(E.mlt()), tw(f))
    for r in ('+', '-', '*'):
        pure('tensor %s tensor' % r, lambda m, E, r=r: (lambda F, G: lambda: OP(m, r, F, G))(E.mlt(), E.mlt('U')), tw('__add__'))
    for sl in (1, 2):
        pure('pdiff of a tensor by slot %d while a slot is being differentiated' % sl, lambda m, E, sl=sl: (lambda T, _: lambda: m.call_method(T, 'pdiff', [Const(sl)], {}, None))(E.mlt(), E.ga.fields.__setitem__('dslot', Const(1))), tw('pdiff'))
    pure('contract of a tensor while a slot is being differentiated', lambda m, E: (lambda T, _: lambda: m.call_method(T, 'contract', [Const(2), Const(1)], {}, None))(E.mlt(), E.ga.fields.__setitem__('dslot', Const(1))), tw('contract'))
    pure('trace of a transformation while a slot is being differentiated', lambda m, E: (lambda F, _: lambda: m.call_method(F, 'tr', [], {}, None))(E.lt(), E.ga.fields.__setitem__('dslot', Const(1))), lw('tr'))
    pure('pdiff of a tensor by a missing slot', lambda m, E: (lambda T, _: lambda: m.call_method(T, 'pdiff', [Const(9)], {}, None))(E.mlt(), E.ga.fields.__setitem__('dslot', Const(-1))), tw('pdiff'), fails=True)
    pure('contract of a tensor by a missing slot', lambda m, E: (lambda T: lambda: m.call_method(T, 'contract', [Const(1), Const(9)], {}, None))(E.mlt()), tw('contract'), fails=True)
    pure('adding tensors with different numbers of slots', lambda m, E: (lambda F, G: lambda: OP(m, '+', F, G))(E.mlt(), E.mlt('U', 1)), tw('__add__'), fails=True)
    pure('a tensor made from a vector', lambda m, E: (lambda v: lambda: m.call(m.module_name(lmod, 'Mlt'), [v, E.ga], {}, None))(E.vec()), tw('__init__'))
    pure('a tensor made from a transformation', lambda m, E: (lambda v: lambda: m.call(m.module_name(lmod, 'Mlt'), [v, E.ga], {}, None))(E.lt()), tw('__init__'))
    pure('a tensor made from a failing function', lambda m, E: lambda: m.call(m.module_name(lmod, 'Mlt'), [fn(['u', 'w'], boom), E.ga], {}, None), tw('__init__'), fails=True)
