"""C24: constructors and coefficient accessors of multivectors."""
from rules.concrule import *

SKIP = ('linear_expand', 'linear_expand_terms', 'Mv.characterise_Mv', 'Ga.grades', 'Ga.scalar_part', 'Ga.get_grade', 'Ga.even_odd', 'collect')


class Flip(Build):
    """sums list their terms in the opposite order"""
    flip = False

    def expanded(self, v):
        e = super().expanded(v)
        return e[::-1] if self.flip and e is not None else e


TABLES = ('indexes', 'blades', 'bases', 'indexes_to_blades_dict', 'indexes_to_bases_dict', 'blades_to_grades_dict', 'bases_to_grades_dict')


class Tables(Conc):
    """the tables of blades and bases are interpreted, their symbols are the words of their vectors"""
    SYMS = {'BasisBladeSymbol': 'b', 'BasisBladeNoWedgeSymbol': 'b', 'BasisBaseSymbol': 'B'}

    def call(self, m, f, args, kw, node):
        if isinstance(f, Cls) and f.ci.name in self.SYMS and not kw:
            ws = [self.val(a) for a in args]
            if all(w is not None and len(w) == 1 and len(list(w)[0]) == 1 and list(w)[0][0][0] == 'e' for w in ws):
                ix = tuple(list(w)[0][0][1] for w in ws)
                return Const(1, True) if not ix else args[0] if len(ix) == 1 else self.mk({((self.SYMS[f.ci.name],) + ix,): cconst(1)})
        if isinstance(f, Cls) and f.ci.name == 'OrderedBiMap' and len(args) == 1 and isinstance(args[0], Seq) and args[0].concrete():
            inv = Obj('inverse', 'BiMapInv', fields={'pairs': Seq('list', [Seq('tuple', x.items[::-1]) for x in args[0].items])})
            return Obj('bimap', 'BiMap', fields={'pairs': args[0], 'inverse': inv})
        return super().call(m, f, args, kw, node)

    def getattr(self, m, o, name, node):
        if isinstance(o, Obj) and o.cls == 'BiMap' and name == 'inverse':
            return o.fields['inverse']
        return super().getattr(m, o, name, node)


def tables(ck, W, n, ortho, nm):
    A = Alg(ck, W, n, gatoms(n, ortho), ['x', 'y', 'z'][:n], nm, H=lambda W, n, g, c: Tables(W, n, g, c, skip=SKIP + TABLES))
    H = A.H
    S = H.cl.subsets

    def word(v):
        # index tuple of a blade or base symbol
        d = H.val(v)
        if d is None or len(d) != 1 or not ceq(list(d.values())[0], cconst(1)) or len(list(d)[0]) > 1:
            raise NoRead(short(v))
        w = list(d)[0]
        return ('e' if not w or len(w[0]) == 2 else w[0][0],) + (w[0][1:] if w else ())

    def index(v):
        if not isinstance(v, Seq) or not v.concrete():
            raise NoRead(short(v))
        return tuple(x.v for x in v.items)

    def graded(rd):
        def f(v):
            if isinstance(v, Obj) and v.cls == 'GradedTuple':
                return [[rd(x) for x in r.items] for r in v.fields['rows'].items]
            raise NoRead(short(v))
        return f

    def dct(rk, rv):
        def f(v):
            if isinstance(v, Dct):
                return sorted([rk(k), rv(x)] for k, x in v.items)
            if isinstance(v, Obj) and v.cls in ('BiMap', 'BiMapInv'):
                return sorted([rk(x.items[0]), rv(x.items[1])] for x in v.fields['pairs'].items)
            raise NoRead(short(v))
        return f
    E = lambda k: (lambda w: ('e' if len(w) < 2 else k,) + w)
    rows = lambda f: [[f(w) for w in S if len(w) == r] for r in range(n + 1)]
    get = lambda name: (lambda m: m.getattr(H.ga(), name, None))
    wh = lambda f: where(W, W.Ga, f)
    A.check('tables', 'index tuples', get('indexes'), graded(index), rows(tuple), wh('indexes'))
    kinds = [('blades', 'b')] + ([] if ortho else [('bases', 'B')])
    for k, c in kinds:
        A.check('tables', k, get(k), graded(word), rows(E(c)), wh(k))
        A.check('tables', 'index of %s' % k, get('indexes_to_%s_dict' % k), dct(index, word), sorted([w, E(c)(w)] for w in S), wh('indexes_to_%s_dict' % k))
        A.check('tables', '%s of an index' % k, lambda m: m.getattr(m.getattr(H.ga(), 'indexes_to_%s_dict' % k, None), 'inverse', None), dct(word, index), sorted([E(c)(w), w] for w in S), wh('indexes_to_%s_dict' % k))
        A.check('tables', 'grades of %s' % k, get('%s_to_grades_dict' % k), dct(word, A.const), sorted([E(c)(w), len(w)] for w in S), wh('%s_to_grades_dict' % k))
    names = ['x', 'y', 'z']
    A.check('tables', 'names of coefficients', get('blade_super_scripts'), graded(A.const), rows(lambda w: ''.join(names[i] for i in w)), wh('blade_super_scripts'))
    A.check('tables', 'multivectors of the blades', get('mv_blades'), graded(A.mv), rows(lambda w: {w: cconst(1)}), wh('mv_blades'))
    A.check('tables', 'multivectors of the basis', get('mv_basis'), A.seq(A.mv), [{(i,): cconst(1)} for i in range(n)], wh('mv_basis'))
    A.check('tables', 'basis vectors', lambda m: m.call_method(H.ga(), 'basis_vectors', [], {}, None), A.seq(word), [('e', i) for i in range(n)], wh('basis_vectors'))
    A.check('tables', 'coordinate vector', get('coord_vec'), lambda v: A.mv(v), {(i,): H.sym(names[i]) for i in range(n)}, wh('coord_vec'))


class Flipped(Flip):
    flip = True


def run(ck, W):
    ck.rule('tables', 'the tables of basis blades, bases, indices and grades list every ordered index tuple once, by grade, and agree with each other')
    ck.rule('construct', 'a multivector made from a name has one coefficient named after each blade of its category, one made from values has these values')
    ck.rule('read', 'the coefficients, components, projections and grades read from a multivector are those of its expansion in blades')
    ck.rule('write', 'setting a coefficient changes that coefficient only, whatever was asked about the multivector before')
    ck.rule('map', 'functions, substitutions and rearrangements are applied to every coefficient and to nothing else')
    ck.rule('evaluated', 'numbers read from a multivector, or computed as scalar products, compare equal to their values')
    ck.rule('reject', 'unknown categories, superfluous coefficients and wrong blades are rejected')
    for n, ortho in ((1, True), (2, True), (2, False), (3, True), (3, False)):
        tables(ck, W, n, ortho, '%s basis, n=%d' % ('orthogonal' if ortho else 'general', n))
    for n, g, co, nm in ((2, gatoms(2, False), None, 'general metric, n=2'), (3, gatoms(3, True), ['x', 'y', 'z'], 'orthogonal metric, n=3'),
                         (3, gatoms(3, False), ['x', 'y', 'z'], 'general metric, n=3')):
        for cls in (Flip, Flipped):
            one(ck, W, n, g, co, nm + (', reversed terms' if cls.flip else ''), cls)
    evaluated(ck, W)
    A = Alg(ck, W, 4, gatoms(4, True), None, 'orthogonal metric, n=4', H=lambda W, n, g, c: Flip(W, n, g, c, skip=SKIP))
    construct(ck, W, A, 4, None)
    return ck.finish('Abstract interpretation of the multivector constructors and accessors over algebras with uninterpreted metric; sums of terms are explicit, '
                     'with repeated blades and in either order.', min_decided=3)


def evaluated(ck, W):
    n = 2
    A = Alg(ck, W, n, [[cconst(1 if i == j else 0) for j in range(n)] for i in range(n)], None, '', H=lambda W, n, g, c: Build(W, n, g, c, skip=SKIP))
    H = A.H
    wh = lambda f: where(W, W.Mv, f)
    d = {(0,): cconst(-3), (1,): cmul(cconst(-2), H.sym('k'))}

    def item(v):
        if getattr(v, 'uneval', False):
            raise Wrong('a product of -1 and a number which is not evaluated and does not compare equal to its value %s' % short(v))
        return A.scal(v)

    def call(name, *a):
        def entry(m):
            ga = H.ga()
            return m.call_method(H.mvobj(ga, d, 'A'), name, [f(ga) if callable(f) else f for f in a], {}, None)
        return entry
    for f, a, want in (('get_coefs', [Const(1)], [d[(0,)], d[(1,)]]), ('list', [], [d[(0,)], d[(1,)]]),
                       ('blade_coefs', [lambda ga: Seq('list', [H.mvobj(ga, {(0,): cconst(1)}, 'b')])], [d[(0,)]])):
        A.check('evaluated', 'numbers read by Mv.%s' % f, call(f, *a), A.seq(item), want, wh(f))
    for f in ('__mul__', '__or__', '__lt__', '__gt__', 'sp'):
        for x in (-3, 3, -1, -2):
            def entry(m, swap=False):
                ga = H.ga()
                X, E = H.mvobj(ga, {(0,): cconst(x)}, 'A'), H.mvobj(ga, {(0,): cconst(1)}, 'b')
                r = m.call_method(*((E, f, [X]) if swap else (X, f, [E])), {}, None)
                return m.compare_op('==', r, Const(x), None)
            A.check('evaluated', '%s of %d e1 and e1 is equal to %d' % (f, x, x), entry, A.boolean, True, wh(f))
            A.check('evaluated', '%s of e1 and %d e1 is equal to %d' % (f, x, x), lambda m: entry(m, True), A.boolean, True, wh(f))


def construct(ck, W, A, n, co):
    H, cl = A.H, A.H.cl
    names = co or [str(i + 1) for i in range(n)]
    wh = lambda f: where(W, W.Mv, f)

    def coefname(root, w, f=None):
        # the named coefficient of the blade e_w
        s = root if not w else '%s__%s' % (root, ''.join(names[i] for i in w))
        return H.sym(s) if f is None else H.fn(s, f)

    def named(root, gs, f=None):
        return {w: coefname(root, w, f) for w in cl.subsets if len(w) in gs}
    box = []

    def ga(m):
        # one algebra for all of them
        if not box:
            box.append(H.built(m))
        return box[0]
    mv = lambda m, *a, **k: m.call_method(ga(m), 'mv', list(a), k, None)
    cats = {'scalar': (0,), 'vector': (1,), 'bivector': (2,), 'grade2': (2,), 'pseudo': (n,), 'mv': tuple(range(n + 1)), 'even': tuple(range(0, n + 1, 2)),
            'spinor': tuple(range(0, n + 1, 2)), 'odd': tuple(range(1, n + 1, 2))}
    for c, gs in cats.items():
        A.check('construct', 'named %s' % c, lambda m: mv(m, Const('A'), Const(c)), A.mv, named('A', gs), wh('_make_grade'))
        if co:
            A.check('construct', 'named %s field' % c, lambda m: mv(m, Const('A'), Const(c), f=TRUE), A.mv, named('A', gs, co), wh('_make_grade'))
            A.check('construct', 'named %s field of the first coordinate' % c, lambda m: mv(m, Const('A'), Const(c), f=Seq('tuple', [H.scal(co[0])])), A.mv, named('A', gs, co[:1]), wh('_make_grade'))
    for r in range(n + 1):
        A.check('construct', 'named grade %d' % r, lambda m: mv(m, Const('A'), Const(r)), A.mv, named('A', (r,)), wh('__init__'))
        A.check('construct', "named 'grade' %d" % r, lambda m: mv(m, Const('A'), Const('grade'), Const(r)), A.mv, named('A', (r,)), wh('__init__'))
        bl = [w for w in cl.subsets if len(w) == r]
        vals = [H.sym('a%d' % i) for i in range(len(bl))]
        for kind in ('list', 'tuple'):
            if r:
                A.check('construct', 'grade %d from a %s of coefficients' % (r, kind), lambda m: mv(m, Seq(kind, [H.cval(v) for v in vals]), Const(r)), A.mv, dict(zip(bl, vals)), wh('_make_grade'))
            A.check('construct', "'grade' %d from a %s of coefficients" % (r, kind), lambda m: mv(m, Seq(kind, [H.cval(v) for v in vals]), Const('grade'), Const(r)), A.mv, dict(zip(bl, vals)), wh('_make_grade'))
        if r:
            A.rejects('reject', 'too many coefficients of grade %d' % r, lambda m: mv(m, Seq('list', [H.scal('a')] * (len(bl) + 1)), Const(r)), lambda m: mv(m, Seq('list', [H.scal('a')] * len(bl)), Const(r)))
        if len(bl) > 1:
            A.check('construct', 'grade %d from too few coefficients' % r, lambda m: mv(m, Seq('list', [H.cval(v) for v in vals[:-1]]), Const(r)), A.mv, dict(zip(bl[:-1], vals)), wh('_make_grade'))
    for c in ('vector', 'bivector', 'pseudo'):
        bl = [w for w in cl.subsets if len(w) in cats[c]]
        vals = [H.sym('a%d' % i) for i in range(len(bl))]
        A.check('construct', '%s from coefficients' % c, lambda m: mv(m, Seq('list', [H.cval(v) for v in vals]), Const(c)), A.mv, dict(zip(bl, vals)), wh('_make_grade'))
    for c in ('mv', 'even', 'odd', 'spinor'):
        A.rejects('reject', '%s from coefficients' % c, lambda m: mv(m, Seq('list', [H.scal('a')]), Const(c)), lambda m: mv(m, Const('A'), Const(c)))
    A.rejects('reject', 'an unknown category', lambda m: mv(m, Const('A'), Const('trivector_')), lambda m: mv(m, Const('A'), Const('vector')))
    A.rejects('reject', 'a name for the coordinates of an unknown keyword', lambda m: mv(m, Const('A'), Const('vector'), g=TRUE), lambda m: mv(m, Const('A'), Const('vector')))
    A.rejects('reject', 'a function keyword for given coefficients', lambda m: mv(m, Seq('list', [H.scal('a')]), Const('vector'), f=TRUE), lambda m: mv(m, Seq('list', [H.scal('a')]), Const('vector')))
    A.rejects('reject', 'an unknown keyword for an expression', lambda m: mv(m, H.scal('a'), f=TRUE), lambda m: mv(m, H.scal('a')))
    A.rejects('reject', 'a category that is neither a word nor an integer', lambda m: mv(m, Seq('list', [H.scal('a')]), H.scal('c')), lambda m: mv(m, Seq('list', [H.scal('a')]), Const('vector')))
    A.check('construct', 'scalar from a value', lambda m: mv(m, H.scal('a'), Const('scalar')), A.mv, {(): H.sym('a')}, wh('_make_scalar'))
    A.check('construct', 'grade 0 from a value', lambda m: mv(m, H.scal('a'), Const(0)), A.mv, {(): H.sym('a')}, wh('__init__'))
    A.check('construct', 'multivector from a number', lambda m: mv(m, Const(5)), A.mv, {(): cconst(5)}, wh('__init__'))
    A.check('construct', 'multivector from a scalar', lambda m: mv(m, H.scal('a')), A.mv, {(): H.sym('a')}, wh('__init__'))
    X = H.general('A')
    A.check('construct', 'multivector from an expression', lambda m: mv(m, H.unlin(X)), A.mv, X, wh('__init__'))

    def copy(m, base=False):
        g = ga(m)
        x = (H.basemv if base else H.mvobj)(g, X, 'A')
        return m.call_method(g, 'mv', [x], {}, None)
    A.check('construct', 'copy of a multivector', copy, A.mv, X, wh('__init__'))
    A.check('construct', 'copy of a multivector in base representation', lambda m: copy(m, True), A.mv, X, wh('__init__'))
    # several at once
    A.check('construct', 'several vectors', lambda m: mv(m, Const('A B'), Const('vector')), A.seq(A.mv), [named('A', (1,)), named('B', (1,))], where(W, W.Ga, 'mv'))
    A.check('construct', 'several of a grade', lambda m: mv(m, Const('A B'), Const(1)), A.seq(A.mv), [named('A', (1,)), named('B', (1,))], where(W, W.Ga, 'mv'))
    A.check('construct', 'several categories', lambda m: mv(m, Const('A B C'), Const('vector scalar mv')), A.seq(A.mv), [named('A', (1,)), named('B', (0,)), named('C', cats['mv'])], where(W, W.Ga, 'mv'))
    A.check('construct', 'several categories, one of them repeated', lambda m: mv(m, Const('A B C'), Const('vector scalar vector')), A.seq(A.mv), [named('A', (1,)), named('B', (0,)), named('C', (1,))], where(W, W.Ga, 'mv'))
    A.rejects('reject', 'fewer categories than names', lambda m: mv(m, Const('A B C'), Const('vector scalar')), lambda m: mv(m, Const('A B'), Const('vector scalar')))
    A.rejects('reject', 'more categories than names', lambda m: mv(m, Const('A B'), Const('vector scalar mv')), lambda m: mv(m, Const('A B'), Const('vector scalar')))
    A.check('construct', 'basis', lambda m: m.call_method(ga(m), 'mv', [], {}, None), A.seq(A.mv), [{(i,): cconst(1)} for i in range(n)], where(W, W.Ga, 'mv'))


def one(ck, W, n, g, co, nm, cls):
    A = Alg(ck, W, n, g, co, nm, H=lambda W, n, g, c: cls(W, n, g, c, skip=SKIP))
    H, cl = A.H, A.H.cl
    if not cls.flip:
        construct(ck, W, A, n, co)
    wh = lambda f: where(W, W.Mv, f)
    S = cl.subsets
    two = lambda w: cadd(H.sym('p' + ''.join(map(str, w))), H.sym('q' + ''.join(map(str, w))))     # two terms with the same blade
    box = []

    def shared(m):
        if not box:
            box.append(H.ga())
        return box[0]
    reps = [False] if H.ortho else [False, True]

    def call(base, d, name, *a, **k):
        def entry(m):
            ga = shared(m)
            x = (H.basemv if base else H.mvobj)(ga, d, 'A')
            return m.call_method(x, name, [f(ga) if callable(f) else f for f in a], k, None)
        return entry

    def blade(w):
        return lambda ga: H.mvobj(ga, {w: cconst(1)}, 'b')
    vals = {'general': {w: two(w) for w in S}, 'sparse': {w: two(w) for w in S if len(w) in (1, n)}, 'zero': {}, 'scalar': {(): two(())},
            'vector': {w: two(w) for w in S if len(w) == 1}, 'blade': {(0, 1): cconst(1)}, 'minus a vector': {(1,): cconst(-1)}, 'multiple of a vector': {(0,): cconst(-3), (1,): cmul(cconst(-2), H.sym('k'))}, 'grades 1 and 2': {w: two(w) for w in S if len(w) in (1, 2)},
            'even': {w: two(w) for w in S if len(w) % 2 == 0}, 'basis vector': {(1,): cconst(1)}, 'one': {(): cconst(1)}, 'one component': {(0,): two((0,))}}
    for vn, d in vals.items():
        gs = sorted({len(w) for w in d})
        for base in reps:
            if base and vn in ('zero', 'scalar', 'one'):
                continue
            sj = '%s multivector%s' % (vn, ' in base representation' if base else '')
            for r in range(n + 1):
                for f in ('grade', 'get_grade'):
                    A.check('read', '%s %d of a %s' % (f, r, sj), call(base, d, f, Const(r)), A.mv, {w: c for w, c in d.items() if len(w) == r}, wh(f))
                bl = [w for w in S if len(w) == r]
                if set(gs) <= {r}:
                    A.check('read', 'coefficients of grade %d of a %s' % (r, sj), call(base, d, 'get_coefs', Const(r)), A.seq(A.scal), [d.get(w, {}) for w in bl], wh('get_coefs'))
                else:
                    A.rejects('read', 'coefficients of grade %d of a %s' % (r, sj), call(base, d, 'get_coefs', Const(r)))
            A.check('read', 'item 1 of a %s' % sj, call(base, d, '__getitem__', Const(1)), A.mv, {w: c for w, c in d.items() if len(w) == 1}, wh('__getitem__'))
            A.check('read', 'grade without argument of a %s' % sj, call(base, d, 'grade'), A.mv, {w: c for w, c in d.items() if not w}, wh('grade'))
            A.check('read', 'scalar part of a %s' % sj, call(base, d, 'scalar'), A.scal, d.get((), {}), wh('scalar'))
            A.check('read', 'even part of a %s' % sj, call(base, d, 'even'), A.mv, {w: c for w, c in d.items() if len(w) % 2 == 0}, wh('even'))
            A.check('read', 'odd part of a %s' % sj, call(base, d, 'odd'), A.mv, {w: c for w, c in d.items() if len(w) % 2}, wh('odd'))
            A.check('read', 'all coefficients of a %s' % sj, call(base, d, 'blade_coefs'), A.seq(A.scal), [d.get(w, {}) for w in S], wh('blade_coefs'))
            A.check('read', 'vector coefficients of a %s' % sj, call(base, d, 'list'), A.seq(A.scal), [d.get((i,), {}) for i in range(n)], wh('list'))
            lst = [(1,), (), (0, 1), (0,)]
            A.check('read', 'chosen coefficients of a %s' % sj, call(base, d, 'blade_coefs', lambda ga: Seq('list', [blade(w)(ga) for w in lst])), A.seq(A.scal), [d.get(w, {}) for w in lst], wh('blade_coefs'))
            A.check('read', 'projection of a %s on blades' % sj, call(base, d, 'proj', lambda ga: Seq('list', [blade(w)(ga) for w in lst])), A.mv, {w: c for w, c in d.items() if w in lst}, wh('proj'))
            if len(reps) > 1:
                A.check('read', 'projection of a %s on blades in base representation' % sj, call(base, d, 'proj', lambda ga: Seq('list', [H.basemv(ga, {w: cconst(1)}, 'b') for w in lst])), A.mv, {w: c for w, c in d.items() if w in lst}, wh('proj'))
                A.check('read', 'coefficients of a %s of blades in base representation' % sj, call(base, d, 'blade_coefs', lambda ga: Seq('list', [H.basemv(ga, {w: cconst(1)}, 'b') for w in lst])), A.seq(A.scal), [d.get(w, {}) for w in lst], wh('blade_coefs'))
            A.check('read', 'projection of a %s on no blades' % sj, call(base, d, 'proj', Seq('list', [])), A.mv, {}, wh('proj'))
            if d:
                A.check('read', 'components of a %s' % sj, call(base, d, 'components'), A.seq(A.mv), [{w: d[w]} for w in S if w in d], wh('components'))
            pg = 0 if not gs else gs[0] if len(gs) == 1 else -gs[-1]
            A.check('read', 'pure grade of a %s' % sj, call(base, d, 'pure_grade'), A.const, pg, wh('pure_grade'))
            A.check('read', 'whether a %s is a scalar' % sj, call(base, d, 'is_scalar'), A.boolean, gs in ([], [0]), wh('is_scalar'))
            A.check('read', 'whether a %s is a vector' % sj, call(base, d, 'is_vector'), A.boolean, gs == [1], wh('is_vector'))
            A.check('read', 'whether a %s is zero' % sj, call(base, d, 'is_zero'), A.boolean, not d, wh('is_zero'))
            A.check('read', 'whether a %s is a basis blade' % sj, call(base, d, 'is_base'), A.boolean, len(d) == 1 and all(ceq(c, cconst(1)) for c in d.values()), wh('is_base'))
            A.check('map', 'collecting a %s' % sj, call(base, d, 'collect'), (lambda v: A.mv(v)), d, wh('collect')) if not base else None
            A.check('map', 'expanding a %s' % sj, call(base, d, 'expand'), A.mv, d, wh('expand'))
            sq = Prim('square', lambda m, a, k, nd: H.mk({(): cmul(H.coef(a[0]), H.coef(a[0]))}))
            tr = Prim('triple', lambda m, a, k, nd: H.mk({(): cmul(cconst(3), H.coef(a[0]))}))
            if not base:
                ident = {w: cmul(c, c) for w, c in d.items()}
                A.check('map', 'a function of the coefficients of a %s' % sj, call(base, d, 'func', sq), A.mv, ident, wh('func'))
                A.check('map', 'one mode of simplifying a %s' % sj, call(base, d, 'simplify', sq), A.mv, ident, wh('simplify'))
                A.check('map', 'two modes of simplifying a %s' % sj, call(base, d, 'simplify', Seq('list', [tr, sq])), A.mv, {w: cmul(cconst(9), c) for w, c in ident.items()}, wh('simplify'))
                A.check('map', 'two modes of simplifying a %s, in a tuple' % sj, call(base, d, 'simplify', Seq('tuple', [sq, tr])), A.mv, {w: cmul(cconst(3), c) for w, c in ident.items()}, wh('simplify'))
            A.check('map', 'substituting in a %s' % sj, call(base, d, 'subs', H.scal('p0'), H.cval(H.sym('z'))), A.mv, {w: H.csub(c, {('a', 'p0'): H.sym('z')}) for w, c in d.items()}, wh('subs'))
            for r, i in ((0, 0), (1, 0), (1, n - 1), (n, 0)):
                w = [x for x in S if len(x) == r][i]
                for pre in (None, 'is_blade', 'is_versor', 'pure_grade'):
                    if pre in ('is_blade', 'is_versor') and (cls.flip or n > 2 and vn not in ('vector', 'blade')):
                        continue

                    dd = dict(d)
                    dd[w] = H.sym('new')

                    def entry(m, pre=pre, r=r, i=i, dd=dd):
                        ga = shared(m)
                        x = H.mvobj(ga, d, 'A')
                        if pre:
                            m.call_method(x, pre, [], {}, None)
                        m.call_method(x, 'set_coef', [Const(r), Const(i), H.scal('new')], {}, None)
                        out = [x, m.call_method(x, 'pure_grade', [], {}, None)]
                        if pre in ('is_blade', 'is_versor'):
                            # the answer of a new multivector with the same value
                            out += [m.call_method(x, pre, [], {}, None), m.call_method(H.mvobj(ga, dd, 'B'), pre, [], {}, None)]
                        return Seq('tuple', out)

                    def rd(v):
                        same = len(v.items) < 4 or A.boolean(v.items[2]) == A.boolean(v.items[3])
                        return [A.mv(v.items[0]), A.const(v.items[1]), same]
                    if base:
                        if pre:
                            continue
                        up, down = H.base_table()
                        bb, back = {}, {}
                        for x, c in d.items():
                            bb = dadd(bb, dscale(down[x], c))
                        bb[w] = H.sym('new')
                        for x, c in bb.items():
                            back = dadd(back, dscale(up[x], c))

                        def entry(m, r=r, i=i):
                            x = H.basemv(shared(m), d, 'A')
                            m.call_method(x, 'set_coef', [Const(r), Const(i), H.scal('new')], {}, None)
                            return x
                        A.check('write', 'coefficient %d of grade %d of a %s' % (i, r, sj), entry, A.mv, back, wh('set_coef'))
                        continue
                    g2 = sorted({len(x) for x in dd})
                    A.check('write', 'coefficient %d of grade %d of a %s%s' % (i, r, sj, ', after %s' % pre if pre else ''), entry, rd, [dd, g2[0] if len(g2) == 1 else -g2[-1], True], wh('set_coef'))
    A.rejects('reject', 'the coefficient of a vector that is not a basis blade', call(False, vals['general'], 'blade_coefs', lambda ga: Seq('list', [H.mvobj(ga, {(0,): cconst(2)}, 'b')])),
              call(False, vals['general'], 'blade_coefs', lambda ga: Seq('list', [H.mvobj(ga, {(0,): cconst(1)}, 'b')])))
    A.rejects('reject', 'the coefficient of a sum of blades', call(False, vals['general'], 'blade_coefs', lambda ga: Seq('list', [H.mvobj(ga, {(0,): cconst(1), (1,): cconst(1)}, 'b')])),
              call(False, vals['general'], 'blade_coefs', lambda ga: Seq('list', [H.mvobj(ga, {(0,): cconst(1)}, 'b')])))
    # proportional multivectors
    mod = W.prog.module('mv')

    def cmpr(a, b, ba=False, bb=False):
        def entry(m):
            ga = shared(m)
            return m.call(m.module_name(mod, 'compare'), [(H.basemv if ba else H.mvobj)(ga, a, 'A'), (H.basemv if bb else H.mvobj)(ga, b, 'B')], {}, None)
        return entry
    V = {w: H.sym('v' + ''.join(map(str, w))) for w in S}
    k = H.sym('k')
    kV = {w: cmul(k, c) for w, c in V.items()}
    one_off = dict(kV)
    one_off[S[-1]] = H.sym('other')
    for ba, bb in [(x, y) for x in reps for y in reps]:
        sfx = '' if not (ba or bb) else ', representations %s, %s' % ('base' if ba else 'blade', 'base' if bb else 'blade')
        A.check('read', 'ratio of proportional multivectors' + sfx, cmpr(V, kV, ba, bb), A.scal, k, 'galgebra/mv.py compare')
        A.check('read', 'ratio of multivectors differing in one blade' + sfx, cmpr(V, one_off, ba, bb), A.scal, {}, 'galgebra/mv.py compare')
        A.check('read', 'ratio of multivectors with different blades' + sfx, cmpr(V, {w: c for w, c in kV.items() if w}, ba, bb), A.scal, {}, 'galgebra/mv.py compare')
        A.check('read', 'ratio of multivectors, the second with further blades' + sfx, cmpr({w: c for w, c in V.items() if w}, kV, ba, bb), A.scal, {}, 'galgebra/mv.py compare')
        A.check('read', 'ratio of vectors in different directions' + sfx, cmpr({(0,): k}, {(1,): k}, ba, bb), A.scal, {}, 'galgebra/mv.py compare')
