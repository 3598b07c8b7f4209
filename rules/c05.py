"""C05: the products of basis blades, and their bilinear extension."""
from itertools import combinations
from fractions import Fraction
from sa.vals import *
from sa.interp import Interp, PyRaise
from sa.gamodel import *
from sa.free import Free
from sa.ncpoly import cadd, cmul, cconst


def gpoly(i, j, ortho):
    if ortho and i != j:
        return {}
    return {((('g', min(i, j), max(i, j)), 1),): Fraction(1)}


def clifford(word, ortho, memo={}):
    """{sorted index tuple: coefficient} of a product of basis vectors (oracle)"""
    k = (word, ortho)
    if k in memo:
        return memo[k]
    for p in range(len(word) - 1):
        a, b = word[p], word[p + 1]
        if a == b:
            r = {}
            for w, c in clifford(word[:p] + word[p + 2:], ortho).items():
                r[w] = cmul(c, gpoly(a, a, ortho))
            memo[k] = r
            return r
        if a > b:
            r = {w: {m: -q for m, q in c.items()} for w, c in clifford(word[:p] + (b, a) + word[p + 2:], ortho).items()}
            if not ortho:
                for w, c in clifford(word[:p] + word[p + 2:], ortho).items():
                    r[w] = cadd(r.get(w, {}), cmul(c, cmul(cconst(2), gpoly(a, b, ortho))))
            r = {w: c for w, c in r.items() if c}
            memo[k] = r
            return r
    memo[k] = {word: cconst(1)}
    return memo[k]


def wedge(i, j):
    w = list(i + j)
    if len(set(w)) < len(w):
        return {}
    s = 1
    for a in range(len(w)):
        for b in range(a + 1, len(w)):
            if w[a] > w[b]:
                s = -s
    return {tuple(sorted(w)): cconst(s)}


GRADE = {'hestenes_dot': lambda a, b: abs(a - b) if a and b else None, 'scalar_product': lambda a, b: 0,
         'left_contract': lambda a, b: b - a if b >= a else None, 'right_contract': lambda a, b: a - b if a >= b else None,
         'wedge': lambda a, b: a + b, 'mul': None}


def oracle(prod, i, j):
    if prod == 'wedge':
        return wedge(i, j)
    full = clifford(i + j, True)
    if prod == 'mul':
        return full
    r = GRADE[prod](len(i), len(j))
    return {} if r is None else {w: c for w, c in full.items() if len(w) == r}


def run(ck, W):
    ck.rule('ortho-table', 'product of two basis blades of an orthogonal algebra, for every order type of the two index tuples, equals the defining value over an uninterpreted metric')
    ck.rule('base-product', 'product of two base words of a non-orthogonal algebra equals the reduction by e_j e_i = -e_i e_j + 2 g_ij over an uninterpreted symmetric metric')
    ck.rule('expansion', 'blade expansion is the outer product in terms of base words, and base expansion is its inverse')
    ck.rule('non-ortho', 'the product of blades in a non-orthogonal algebra selects the defining grade of the geometric product of the two blades, operands in order')
    ck.rule('bilinear', 'the product of sums is the sum over all pairs of coefficient times coefficient times product of the basis elements, in order')
    N = 5 if ck.tier != 'thorough' else 6
    prods = [p for p in GRADE if W.Ga.lookup(p) is not None]
    subsets = lambda n: [c for k in range(n + 1) for c in combinations(range(n), k)]

    def lin(H, v, kinds):
        d = H.val(v)
        if d is None:
            return None
        out = {}
        for w, c in d.items():
            if len(w) == 0:
                out[()] = c
            elif len(w) == 1 and w[0][0] in kinds:
                out[tuple(w[0][1:])] = c
            else:
                return None
        return out

    def show(t):
        return ' + '.join('(%s) e%s' % (' + '.join('%s%s' % (q, ''.join('*g%d%d^%d' % (a[0][1], a[0][2], a[1]) if a[0][0] == 'g' else '*' + str(a) for a in m)) for m, q in c.items()), ''.join(map(str, w))) for w, c in sorted(t.items())) or '0'

    # -- orthogonal algebras
    for prod in prods:
        H = Free(W, N, True)
        I = ck.use(Interp(W.prog, H, max_steps=4000000))
        S = subsets(N)
        bad = und = None
        n = 0

        def entry(m):
            g = W.ga('ga')
            f = m.getattr(g, prod, None)
            out = []
            for i in S:
                for j in S:
                    m.steps = 0
                    try:
                        out.append(m.call(f, [H.blade(i), H.blade(j)], {}, None))
                    except PyRaise as e:
                        out.append(e)
            return Seq('list', [x if isinstance(x, V) else Const(('raise', x.cname, x.where or '?')) for x in out])
        tr = I.run(entry)
        if len(tr) != 1 or tr[0].kind != 'return':
            t = tr[0]
            ck.undecided('ortho-table', prod, '%d paths, %s %s' % (len(tr), t.kind, t.exc))
            continue
        where = W.prog.where_of(W.Ga, prod) if hasattr(W.prog, 'where_of') else 'galgebra/ga.py'
        k = 0
        by_grade = {}
        for i in S:
            for j in S:
                v = tr[0].value.items[k]
                k += 1
                subj = '%s of grades %d,%d' % (prod, len(i), len(j))
                st = by_grade.setdefault(subj, [0, None, None])
                if isinstance(v, Const) and isinstance(v.v, tuple):
                    st[1] = st[1] or (i, j, 'raises %s' % v.v[1], v.v[2])
                    continue
                got = lin(H, v, ('e', 'b'))
                exp = oracle(prod, i, j)
                if got is None:
                    st[2] = 'value %s' % short(v)
                elif got != exp:
                    st[1] = st[1] or (i, j, 'is %s, by definition %s' % (show(got), show(exp)), None)
                else:
                    st[0] += 1
        for subj, (n, b, u) in by_grade.items():
            if b:
                ck.bad('ortho-table', subj, b[3] or anchor(W, prod), '%s(e%s, e%s) %s' % (prod, ''.join(map(str, b[0])), ''.join(map(str, b[1])), b[2]))
            elif u:
                ck.undecided('ortho-table', subj, u)
            else:
                ck.ok('ortho-table', subj, '%d order types' % n)

    # -- base products of a non-orthogonal algebra
    for n in ((2, 3) if ck.tier != 'thorough' else (2, 3, 4)):
        H = Free(W, n, False)
        I = ck.use(Interp(W.prog, H, max_steps=20000000, max_choices=2000))
        S = subsets(n)

        def entry(m):
            g = W.ga('ga')
            f = m.getattr(g, 'basic_mul', None)
            out = []
            for i in S:
                for j in S:
                    try:
                        out.append(m.call_method(f, 'of_basis_bases', [H.base(i), H.base(j)], {}, None))
                    except PyRaise as e:
                        out.append(Const(('raise', e.cname, e.where or '?')))
            return Seq('list', out)
        tr = I.run(entry)
        if len(tr) != 1 or tr[0].kind != 'return':
            ck.undecided('base-product', 'n=%d' % n, '%d paths %s %s' % (len(tr), tr[0].kind, tr[0].exc))
            continue
        k = 0
        res = {}
        for i in S:
            for j in S:
                v = tr[0].value.items[k]
                k += 1
                subj = 'base product of lengths %d,%d (n=%d)' % (len(i), len(j), n)
                st = res.setdefault(subj, [0, None, None])
                if isinstance(v, Const) and isinstance(v.v, tuple):
                    st[1] = st[1] or (i, j, 'raises %s' % v.v[1], v.v[2])
                    continue
                got = lin(H, v, ('e', 'B'))
                exp = clifford(i + j, False)
                if got is None:
                    st[2] = short(v)
                elif got != exp:
                    st[1] = st[1] or (i, j, 'is %s, by definition %s' % (show(got), show(exp)), None)
                else:
                    st[0] += 1
        for subj, (c, b, u) in res.items():
            if b:
                ck.bad('base-product', subj, b[3] or anchor(W, 'reduce_basis'), '(e%s)(e%s) %s' % (''.join(map(str, b[0])), ''.join(map(str, b[1])), b[2]))
            elif u:
                ck.undecided('base-product', subj, u)
            else:
                ck.ok('base-product', subj, '%d pairs' % c)
    # -- blades of a non-orthogonal algebra
    for n in ((2, 3) if ck.tier != 'thorough' else (2, 3, 4)):
        H = Free(W, n, False)
        S = subsets(n)
        for prod in prods:
            I = ck.use(Interp(W.prog, H, max_steps=40000000, max_choices=2000))

            def entry(m):
                g = W.ga('ga')
                f = m.getattr(g, prod, None)
                out = []
                for i in S:
                    for j in S:
                        try:
                            out.append(m.call(f, [H.blade(i), H.blade(j)], {}, None))
                        except PyRaise as e:
                            out.append(Const(('raise', e.cname, e.where or '?')))
                return Seq('list', out)
            tr = I.run(entry)
            if len(tr) != 1 or tr[0].kind != 'return':
                ck.undecided('non-ortho', '%s n=%d' % (prod, n), '%d paths %s %s' % (len(tr), tr[0].kind, tr[0].exc))
                continue
            k = 0
            res = {}
            for i in S:
                for j in S:
                    v = tr[0].value.items[k]
                    k += 1
                    subj = '%s of grades %d,%d, non-orthogonal n=%d' % (prod, len(i), len(j), n)
                    st = res.setdefault(subj, [0, None, None])
                    if isinstance(v, Const) and isinstance(v.v, tuple):
                        st[1] = st[1] or (i, j, 'raises %s' % v.v[1], v.v[2])
                        continue
                    got = lin(H, v, ('e', 'b'))
                    exp = oracle_no(prod, i, j)
                    if got is None:
                        st[2] = short(v)
                    elif got != exp:
                        st[1] = st[1] or (i, j, 'is %s, by definition %s' % (show(got), show(exp)), None)
                    else:
                        st[0] += 1
            for subj, (c, b, u) in res.items():
                if b:
                    ck.bad('non-ortho', subj, b[3] or anchor(W, prod), '%s(e%s, e%s) %s' % (prod, ''.join(map(str, b[0])), ''.join(map(str, b[1])), b[2]))
                elif u:
                    ck.undecided('non-ortho', subj, u)
                else:
                    ck.ok('non-ortho', subj, '%d pairs' % c)
        # conversions
        for name, exps in (('blade_to_base_rep', 'B'), ('base_to_blade_rep', 'b')):
            I = ck.use(Interp(W.prog, H, max_steps=40000000, max_choices=2000))

            def entry(m):
                g = W.ga('ga')
                return Seq('list', [m.call_method(g, name, [m.binop('*', H.scal('c'), (H.blade if exps == 'B' else H.base)(i), None)], {}, None) for i in S])
            tr = I.run(entry)
            for q, i in enumerate(S):
                subj = '%s of grade %d (n=%d, index %s)' % (name, len(i), n, ''.join(map(str, i)))
                if len(tr) != 1 or tr[0].kind != 'return':
                    ck.undecided('expansion', subj, '%s %s' % (tr[0].kind, tr[0].exc))
                    continue
                v = tr[0].value.items[q]
                if exps == 'B':
                    # expand every base word again as a product of vectors: must give the blade
                    got = lin(H, v, ('e', 'B'))
                    got = None if got is None else sum_(got, lambda w: blades_of(w))
                    exp = {i: {((('a', 'c'), 1),): Fraction(1)}}
                else:
                    got = lin(H, v, ('e', 'b'))
                    exp = {w: cmul(c, {((('a', 'c'), 1),): Fraction(1)}) for w, c in blades_of(i).items()}
                if got is None:
                    ck.undecided('expansion', subj, short(v))
                elif got != exp:
                    ck.bad('expansion', subj, anchor(W, name), 'as blades: %s, by definition %s' % (show(got), show(exp)))
                else:
                    ck.ok('expansion', subj)

    # -- bilinear extension
    for ortho in (True, False):
        H = Free(W, 2, ortho)
        S = subsets(2)
        A = None
        I = ck.use(Interp(W.prog, H, max_steps=40000000, max_choices=2000))
        for prod in prods:
            def sumof(m, nm):
                x = Const(0, True)
                for i in S:
                    x = m.binop('+', x, m.binop('*', H.scal(nm + ''.join(map(str, i))), H.blade(i), None), None)
                return x

            def entry(m):
                return m.call(m.getattr(W.ga('ga'), prod, None), [sumof(m, 'a'), sumof(m, 'b')], {}, None)
            exp = {}
            for i in S:
                for j in S:
                    cc = cmul({((('a', 'a' + ''.join(map(str, i))), 1),): Fraction(1)}, {((('a', 'b' + ''.join(map(str, j))), 1),): Fraction(1)})
                    for w, c in (oracle if ortho else oracle_no)(prod, i, j).items():
                        exp[w] = cadd(exp.get(w, {}), cmul(cc, c))
            exp = {w: c for w, c in exp.items() if c}
            subj = '%s of two general sums, %s' % (prod, 'orthogonal' if ortho else 'non-orthogonal')
            for t in I.run(entry):
                if t.kind != 'return':
                    (ck.bad('bilinear', subj, t.where, 'raises %s' % t.exc) if t.kind == 'raise' else ck.undecided('bilinear', subj, t.exc))
                    continue
                got = lin(H, t.value, ('e', 'b'))
                if got is None:
                    ck.undecided('bilinear', subj, short(t.value))
                elif got != exp:
                    ck.bad('bilinear', subj, t.where, 'is %s, by definition %s' % (show(got)[:300], show(exp)[:300]))
                else:
                    ck.ok('bilinear', subj)
    # -- a scalar product of multiples of one vector is the number itself, not a product left unevaluated
    ck.rule('number', 'a product which is a number compares equal to this number')
    H = Free(W, 2, True, skip=('linear_expand', 'linear_expand_terms'), g=lambda i, j: cconst(1) if i == j else {})
    I = ck.use(Interp(W.prog, H, max_steps=40000000, max_choices=2000))
    for prod in prods:
        if prod == 'wedge':
            continue
        for a, b in ((-3, 1), (1, -3), (-2, -5), (3, 2), (-1, 1)):
            def entry(m):
                return m.call(m.getattr(W.ga('ga'), prod, None), [m.binop('*', Const(c, True), H.blade((0,)), None) for c in (a, b)], {}, None)
            subj = '%s of %d e1 and %d e1' % (prod, a, b)
            for t in I.run(entry):
                if t.kind != 'return':
                    ck.undecided('number', subj, t.exc)
                    continue
                d = H.val(t.value)
                if d != {(): cconst(a * b)}:
                    ck.undecided('number', subj, short(t.value)) if d is None else ck.bad('number', subj, t.where, 'is %s, by definition %d' % (short(t.value), a * b))
                elif getattr(t.value, 'uneval', False):
                    ck.bad('number', subj, t.where, 'is a product of -1 and a number which is not evaluated, and does not compare equal to %d' % (a * b))
                else:
                    ck.ok('number', subj)
    return ck.finish('Abstract interpretation in the free-algebra domain: the product functions of the algebra layer are interpreted over an '
                     'uninterpreted metric, with basis indices entering through their order type only; every entry of every table is compared with '
                     'the axioms of the geometric algebra (e_i e_j + e_j e_i = 2 g_ij) and the definition of the derived product by grade selection.', min_decided=3)


def lmul(i, x):
    """e_i times an element of the exterior algebra (Chevalley)"""
    out = {}
    for w, c in x.items():
        for ww, s in wedge((i,), w).items():
            out[ww] = cadd(out.get(ww, {}), cmul(c, s))
        for ww, s in contract(i, w).items():
            out[ww] = cadd(out.get(ww, {}), cmul(c, s))
    return {w: c for w, c in out.items() if c}


def contract(i, w):
    out = {}
    for p, j in enumerate(w):
        ww = w[:p] + w[p + 1:]
        out[ww] = cadd(out.get(ww, {}), cmul(cconst(1 if p % 2 == 0 else -1), gpoly(i, j, False)))
    return out


_gp = {}


def gp_no(i, j):
    """geometric product of two blades, general metric"""
    if (i, j) in _gp:
        return _gp[i, j]
    if not i:
        r = {j: cconst(1)}
    else:
        r = lmul(i[0], gp_no(i[1:], j))
        for w, c in contract(i[0], i[1:]).items():
            for ww, s in gp_no(w, j).items():
                r[ww] = cadd(r.get(ww, {}), cmul(c, s), -1)
        r = {w: c for w, c in r.items() if c}
    _gp[i, j] = r
    return r


def blades_of(word):
    r = {(): cconst(1)}
    for i in reversed(word):
        r = lmul(i, r)
    return r


def sum_(d, f):
    out = {}
    for w, c in d.items():
        for ww, s in f(w).items():
            out[ww] = cadd(out.get(ww, {}), cmul(c, s))
    return {w: c for w, c in out.items() if c}


def oracle_no(prod, i, j):
    if prod == 'wedge':
        return wedge(i, j)
    full = gp_no(i, j)
    if prod == 'mul':
        return full
    r = GRADE[prod](len(i), len(j))
    return {} if r is None else {w: c for w, c in full.items() if len(w) == r}


def anchor(W, name):
    r = W.Ga.lookup(name)
    return '%s:%d (Ga.%s)' % (r[0].module.rel, r[1].lineno, name) if r else 'galgebra/ga.py'
