"""C11: arguments an operation is not defined for are refused."""
from rules.client import *
from rules.curved import f2


def run(ck, W):
    ck.rule('reject', 'every path of the call raises when the argument is not admissible')
    ck.rule('accept', 'the admissible neighbour of the call returns')
    for n, g, co, nm in ((2, gatoms(2, False), ('x', 'y'), 'general metric, n=2'), (3, gatoms(3, True), ('x', 'y', 'z'), 'orthogonal metric, n=3')):
        A = Alg(ck, W, n, g, co, nm, H=lambda W, n, g, c: CRec(W, n, g, c, skip=SKIP))
        table(ck, W, A, Client(A))
    A = Alg(ck, W, 2, gatoms(2, False), None, 'no coordinates, n=2', H=lambda W, n, g, c: CRec(W, n, g, c, skip=SKIP))
    nocoords(ck, W, A, Client(A, coords=False))
    systems_(ck, W)
    null(ck, W)
    big(ck, W)
    return ck.finish('Abstract interpretation of each operation on arguments outside its domain, next to an admissible call of the same form: the first must raise on '
                     'every path, the second must return.', min_decided=60)


class Rules:
    def __init__(self, ck, W, A, C):
        self.ck, self.W, self.A, self.C = ck, W, A, C

    def __call__(self, subj, bad, good=None, wh=None, accept=True, **extra):
        A, C = self.A, self.C
        b = C.entry(bad, **extra)
        gd = C.entry(good, **extra) if good is not None else None
        self.reject(subj, b, bad)
        if gd is not None and accept:
            self.accept('%s: %s' % (subj, good), gd)

    def runs(self, entry):
        try:
            return self.A.I.run(entry)
        except RecursionError:
            return None

    def reject(self, subj, entry, src):
        ck = self.ck
        s = '%s: %s [%s]' % (subj, src, self.A.name)
        tr = self.runs(entry)
        if not tr:
            ck.undecided('reject', s, 'no path')
            return
        odd = [t for t in tr if t.kind not in ('return', 'raise')]
        if odd:
            ck.undecided('reject', s, str(odd[0].exc))
            return
        for t in tr:
            if t.kind == 'return' and not is_notimpl(t.value):
                und = [c for c, v in t.facts if not isinstance(c, Const)]
                if und:
                    ck.undecided('reject', s, 'undecided condition %s' % short(und[0], 200))
                    return
                ck.bad('reject', s, t.where or 'galgebra', 'is accepted and returns %s' % short(t.value, 120), facts_of(t))
                return
        ck.ok('reject', s, 'raises %s' % short(tr[0].exc, 80))

    def accept(self, subj, entry):
        ck = self.ck
        s = '%s [%s]' % (subj, self.A.name)
        tr = self.runs(entry)
        if not tr:
            ck.undecided('accept', s, 'no path')
            return
        for t in tr:
            und = [c for c, v in t.facts if not isinstance(c, Const)]
            if und or t.kind not in ('return', 'raise') or is_notimpl(t.value) if t.kind == 'return' else und:
                ck.undecided('accept', s, 'undecided condition %s' % short(und[0], 200) if und else str(t.exc))
                return
            if t.kind == 'raise':
                ck.bad('accept', s, t.where or 'galgebra', 'raises %s' % short(t.exc, 150), facts_of(t))
                return
        ck.ok('accept', s)


def table(ck, W, A, C):
    R = Rules(ck, W, A, C)
    n = A.n
    H = A.H
    nb = [1, n, n * (n - 1) // 2, 1]
    # ---- making multivectors
    for cat in ('vector', 'bivector', 'grade2', 'pseudo', 'mv', 'even', 'spinor', 'odd', 'scalar'):
        R('unknown keyword', "ga.mv('A', '%s', fct=True)" % cat, "ga.mv('A', '%s', f=True)" % cat)
        R('superfluous argument', "ga.mv('A', '%s', 1)" % cat, "ga.mv('A', '%s')" % cat)
        if cat in ('vector', 'bivector', 'grade2', 'pseudo'):
            k = {'vector': n, 'pseudo': 1}.get(cat, n * (n - 1) // 2)
            R('superfluous coefficients', "ga.mv([%s], '%s')" % (', '.join(['k'] * (k + 1)), cat), "ga.mv([%s], '%s')" % (', '.join(['k'] * k), cat))
            R('function of given coefficients', "ga.mv([k], '%s', f=True)" % cat)
        elif cat != 'scalar':
            R('coefficients for a mixed category', "ga.mv([k], '%s')" % cat)
            R('number for a mixed category', "ga.mv(k, '%s')" % cat)
        if cat != 'scalar':
            R('number as coefficients', "ga.mv(3, '%s')" % cat)
    R('function of a given scalar', "ga.mv(k, 'scalar', f=True)", "ga.mv(k, 'scalar')")
    for r in (1, 2):
        R('unknown keyword', "ga.mv('A', %d, g=True)" % r, "ga.mv('A', %d, f=True)" % r)
        R('number as coefficients', "ga.mv(3, %d)" % r)
    R('grade above the dimension', "ga.mv('A', %d)" % (n + 1), "ga.mv('A', %d)" % n)
    R('grade above the dimension', "ga.mv('A', 'grade', %d)" % (n + 1), "ga.mv('A', 'grade', %d)" % n)
    R('grade missing', "ga.mv('A', 'grade')")
    R('unknown category', "ga.mv('A', 'matrix')", "ga.mv('A', 'mv')")
    R('category of wrong type', "ga.mv('A', 1.5)")
    R('category of wrong type', "ga.mv('A', None)")
    R('category missing', "ga.mv('A')")
    R('unknown keyword', "ga.mv(A, f=True)", "ga.mv(A)")
    R('unknown keyword', "ga.mv(k, f=True)", "ga.mv(k)")
    R('unknown keyword', "Mv(ga=ga, f=True)", "Mv(ga=ga)")
    R('too few categories', "ga.mv('A B C', 'vector mv')", "ga.mv('A B', 'vector mv')")
    R('too many categories', "ga.mv('A B', 'vector mv odd')")
    R('one name for several categories', "ga.mv('A', 'vector mv')")
    R('algebra missing', "Mv('A', 'vector')")
    # ---- reading
    for m_ in ('blade_coefs', 'proj'):
        pass
    R('coefficients of another grade', "v.get_coefs(2)", "v.get_coefs(1)")
    R('coefficients of one grade of a mixture', "A.get_coefs(1)")
    R('blade coefficient of a vector', "A.blade_coefs([v])", "A.blade_coefs([e1, e12])")
    R('blade coefficient of a multiple of a blade', "A.blade_coefs([k * e1])")
    R('blade coefficient of a sum of blades', "A.blade_coefs([e1, e1 + e12])")
    R('blade out of range', "A.set_coef(1, %d, k)" % n, "A.set_coef(1, %d, k)" % (n - 1))
    R('grade out of range', "A.set_coef(%d, 0, k)" % (n + 1), "A.set_coef(%d, 0, k)" % n)
    # ---- products and powers
    for e in ('0.5', 'k', "'a'", 'None', '1.0', 'v'):
        R('power', "v ** (%s)" % e)
    R('power', "A ** 0.5", "A ** 2")
    R('scalar product with a number', "A.sp(3)", "A.sp(B)")
    R('scalar product with an expression', "A.sp(k)")
    for sw in ("'x'", "'reverse'", 'None', '1', "'Rev'"):
        R('switch of the scalar product', "A.sp(B, %s)" % sw)
    R('switch of the scalar product', "A.sp(B, 'x')", "A.sp(B, 'rev')")
    for md in ("'@'", "''", "'**'", "'+'"):
        R('product sign', "Mv.Mul(A, B, %s)" % md)
    for md in '*^|<>':
        R.accept("product sign: Mv.Mul(A, B, '%s')" % md, C.entry("Mv.Mul(A, B, '%s')" % md))
    for md in ("'@'", "''", "'x'"):
        R('product sign', "ga.Mul(A.obj, B.obj, %s)" % md)
    for md in '*^|<>':
        R.accept("product sign: ga.Mul(A.obj, B.obj, '%s')" % md, C.entry("ga.Mul(A.obj, B.obj, '%s')" % md))
    if H.ortho:
        R('expansion in products of basis vectors in an orthogonal algebra', "ga.basic_mul")
    R('quotient by a multivector that is not a versor', "v / (1 + e1 + e12 + k * e2)")
    # ---- exponentials, norms, inverses, projections
    if n == 2:
        R('exponential of a multivector with a square that is not a scalar', "(1 + v).exp()", "(3 * e12).exp()", accept=False)
    else:
        R('exponential of a multivector with a square that is not a scalar', "(1 + e1).exp()", "(3 * e12).exp()", accept=False)
    R('hint of the norm', "v.norm('x')")
    R('hint of the norm', "v.norm(None)")
    R('hint of the norm', "v.norm(1)")
    R('hint of the norm', "norm(v, 'x')")
    R('inverse of zero', "(0 * A).shirokov_inverse()", "e1.shirokov_inverse()")
    R('inverse of zero', "(0 * A).hitzer_inverse()", "e1.hitzer_inverse()")
    for f in ('project_in_blade', 'reflect_in_blade'):
        R('into a multivector that is not a blade', "A.%s(1 + e1)" % f, "A.%s(e1)" % f)
        R('into a mixture of grades', "v.%s(e1 + e12)" % f, "v.%s(e12)" % f)
        R('into zero', "v.%s(0 * e1)" % f)
        R('into a number', "v.%s(3)" % f)
    # ---- functions of the module
    for f in ('dual', 'undual', 'even', 'odd', 'g_invol', 'inv', 'shirokov_inverse', 'hitzer_inverse', 'qform', 'norm2', 'norm', 'mag2', 'mag', 'rev', 'ccon', 'scalar'):
        good = '%s(e1)' % f
        R('function of an expression', "%s(k)" % f, good, accept=f != 'norm')
        R('function of a number', "%s(3)" % f)
        R('function of a string', "%s('a')" % f)
    R('function of an expression', "grade(k, 0)", "grade(A, 0)")
    for f, g in (('proj(%s, %s)', 'e1'), ('refl(%s, %s)', 'e1')):
        R('first argument is not a multivector', f % (g, 'k'))
        R('second argument is not a multivector', f % ('k', 'v'), f % (g, 'v'))
    R('rotation of an expression', "rot(3 * e12, k)", "rot(3 * e12, v)", accept=False)
    R('scalar product of an expression', "sp(k, A)", "sp(B, A)")
    R('scalar product with an expression', "sp(A, k)")
    R('comparison with an expression', "compare(A, k)", "compare(A, A)")
    R('comparison with an expression', "compare(k, A)")
    if n == 3:
        R('cross product of a bivector', "cross(v, b)", "cross(v, w)")
        R('cross product of a bivector', "cross(b, v)")
        R('cross product of a general multivector', "cross(A, v)")
        R('cross product of a scalar', "cross(s, v)")
    else:
        R('cross product in the plane', "cross(v, w)")
    # ---- conventions
    for md in ("'I'", "'+'", "'+i'", "'I+I'", "''", "'Iinv'", "'II'"):
        R('convention for the dual', "Ga.dual_mode(%s)" % md)
    for md in ('+I', '-I', 'I+', 'I-', '+Iinv', '-Iinv', 'Iinv+', 'Iinv-'):
        R.accept("convention for the dual: Ga.dual_mode('%s')" % md, C.entry("Ga.dual_mode('%s')" % md))
    co = ['x', 'y', 'z'][:n]
    R('parametrisation by too few functions', "ga.parametric([%s])" % ', '.join(co[:-1]), "ga.parametric([%s])" % ', '.join(co))
    R('parametrisation by too many functions', "ga.parametric([%s])" % ', '.join(co + ['k']))
    R('parametrisation by an expression', "ga.parametric(k)")
    R('parametrisation by a tuple', "ga.parametric((%s))" % ', '.join(co))
    # ---- linear expansion
    for f in ('linear_expand', 'linear_expand_terms'):
        for a in ('3', "'a'", 'None', '[k]'):
            R('expansion of something that is not an expression', '%s(%s)' % (f, a))
    # ---- differential operators
    R('derivative by a number', "Pdop(3)", "Pdop(x)")
    R('derivative by a string', "Pdop('x')", "Pdop({x: 2})")
    R('derivative by a list', "Pdop([x])", "Pdop({})")
    for x in ("'a'", 'None', '[x]', 'F', 'Ga'):
        R('derivative of something unsupported', "P(%s)" % x, "P(v)")
        R('derivative of something unsupported', "Sd(%s)" % x, "Sd(v)")
    for op in '<>':
        for d in ('Sd', 'P'):
            R('contraction of a multivector and a scalar operator', "v %s %s" % (op, d), "v %s D" % op)
    R('different numbers of coefficients and derivatives', "Sdop([k], [P, Q])", "Sdop([k, l], [P, Q])")
    R('different numbers of coefficients and derivatives', "Sdop([k, l], [P])")
    R('coefficients that are not a list', "Sdop(k, [P])", "Sdop([k], [P])")
    R('derivatives that are not a list', "Sdop([k], P)")
    R('coefficients in a tuple', "Sdop((k,), [P])")
    R('operator made from a number', "Sdop(3)", "Sdop(x)")
    R('operator made from nothing', "Sdop()", "Sdop([])")
    R('operator made from three arguments', "Sdop([k], [P], [P])")
    R('operator made from a string', "Sdop('x')")
    R('different numbers of coefficients and derivatives', "ga.dop([A], [P, Q])", "ga.dop([A, v], [P, Q])")
    R('different numbers of coefficients and derivatives', "ga.dop([A, v], [P])")
    R('algebra of an operator missing', "Dop([(A, P)])", "Dop([(A, P)], ga=ga)")
    R('algebra of an operator missing', "Dop([A], [P])", "Dop([A], [P], ga=ga)")
    R('operator made from a number', "Dop(3, ga=ga)")
    R('operator made from three arguments', "Dop([A], [P], [P], ga=ga)")
    R('operator made from nothing', "Dop(ga=ga)", "Dop([], ga=ga)")
    for op in '+-':
        R('sum of operators acting on different sides', "D %s Dr" % op, "D %s D" % op)
        R('sum of operators acting on different sides', "Dr %s D" % op, "Dr %s Dr" % op)
    for op in '*^|<>':
        R('product of operators acting on different sides', "Dop.Mul(D, Dr, '%s')" % op, "Dop.Mul(D, D, '%s')" % op)
        R('product of operators acting on different sides', "Dop.Mul(Dr, D, '%s')" % op)
    R('operators without operator', "Dop.Add(A, v)", "Dop.Add(D, v)")
    R('quotient by a multivector', "D / v", "D / k")
    R('quotient by an operator', "D / D")
    R('terms in the wrong order', "ga.dop([(P, A)])", "ga.dop([(A, P)])")
    R('coefficient that is not a multivector', "ga.dop([(k, P)])", "ga.dop([(s, P)])")
    R('coefficient that is not a multivector', "ga.dop([(Sd, k)])", "ga.dop([(Sd, A)])")
    R('terms of different kinds', "ga.dop([(A, P), (Sd, A)])", "ga.dop([(A, P), (v, Q)])")
    R('no algebra', "Dop([(A, P)], ga=None)")
    # ---- linear transformations
    R('transformation made from a number', "ga.lt(3)", "ga.lt('L')")
    R('transformation made from nothing', "ga.lt(None)")
    R('transformation made from a matrix of wrong size', "ga.lt(N)", "ga.lt(M)", N=lambda m, get: H.matrix([[H.sym('n')] * (n - 1) for i in range(n - 1)]))
    R('transformation made from a matrix with too many rows', "ga.lt(N)", N=lambda m, get: H.matrix([[H.sym('n')] * n for i in range(n + 1)]))
    R('transformation made from a mixture', "ga.lt(1 + e1)", "ga.lt(2 + 3 * e12)")
    R('transformation made from a constant function', "ga.lt(lambda u: v)", "ga.lt(lambda u: 3 * u)")
    R('transformation made from a translation', "ga.lt(lambda u: u + v)")
    R('transformation made from a function with scalar values', "ga.lt(lambda u: u | v)", "ga.lt(lambda u: (u | e1) * e1)")
    R('transformation made from a function with bivector values', "ga.lt(lambda u: u ^ e1)")
    R('transformation made from a quadratic function', "ga.lt(lambda u: (u | u) * e1)")
    R('inverse of a singular transformation', "ga.lt(lambda u: (u | e1) * e1).inv()", "ga.lt(lambda u: 2 * u).inv()")
    if n == 3:
        R('transformation made from a multivector with scalar square', "ga.lt(e1 + e23)", "ga.lt(2 + 3 * e12)")
        R('transformation made from a multivector of mixed parity', "ga.lt(2 * e1 + k * e23)")
    R('unknown mode', "ga.lt('L', mode='q')", "ga.lt('L', mode='s')")
    R('unknown mode', "ga.lt('L', mode='sym')", "ga.lt('L', mode='a')")
    R('unknown mode', "Symbolic_Matrix('L', coords=(x, y), mode='S')", "Symbolic_Matrix('L', coords=(x, y), mode='g')")
    R('coordinates that are not a sequence', "Symbolic_Matrix('L', coords=x)", "Symbolic_Matrix('L', coords=[x, y])")
    R('coordinates missing', "Symbolic_Matrix('L')")
    # ---- tensors
    for op in '+-':
        R('tensors with different numbers of slots', "T1 %s T2" % op, "T2 %s U2" % op)
        R('tensors with different numbers of slots', "T2 %s T1" % op, "T1 %s U1" % op)
        R('tensor and expression', "T1 %s k" % op)
        R('tensor and number', "T1 %s 0" % op)
        R('tensor and multivector', "T1 %s v" % op)
    R('component expression without number of slots', "Mlt(k, ga)", "Mlt(k, ga, 1)")
    R('name without number of slots', "Mlt('T', ga)", "Mlt('T', ga, nargs=1)")


def null(ck, W):
    """metrics with null directions"""
    one = cconst(1)
    for g, nm, e, bl in (([[{}, {}], [{}, one]], 'degenerate orthogonal metric', 'e2', None), ([[{}, one], [one, {}]], 'null basis', '(e1 + e2)', 'e12'), ([[one, {}], [{}, cconst(-1)]], 'Minkowski plane', 'e2', 'e12')):
        A = Alg(ck, W, 2, g, ('x', 'y'), nm, H=lambda W, n, g, c: CRec(W, n, g, c, skip=SKIP))
        R = Rules(ck, W, A, Client(A))
        zs = ['e1', '(3 * e1)'] if nm != 'Minkowski plane' else ['(e1 + e2)', '(k * (e1 - e2))']
        if nm.startswith('degenerate'):
            zs += ['e12', '(e1 + e12)']
        if nm == 'null basis':
            zs += ['(e1 * k)', 'e2']
        for z in zs + ['(0 * e1)', '(0 * A)', 'zero']:
            for f in ('inv', 'shirokov_inverse', 'hitzer_inverse'):
                R('inverse of a null multivector', '%s.%s()' % (z, f), '%s.%s()' % (e, f))
                R('inverse of a null multivector', '%s(%s)' % (f, z), '%s(%s)' % (f, e))
            R('quotient by a null multivector', 'A / %s' % z, 'A / %s' % e)
            R('quotient by a null multivector', '3 / %s' % z, '3 / %s' % e)
            R('negative power of a null multivector', '%s ** -1' % z, '%s ** -1' % e)
            R('negative power of a null multivector', '%s ** -2' % z)
            if '+' in z and z == '(e1 + e12)':
                continue
            for f in ('project_in_blade', 'reflect_in_blade'):
                R('into a null blade', 'A.%s(%s)' % (f, z), 'A.%s(%s)' % (f, e))
            for f in ('proj', 'refl'):
                R('into a null blade', '%s(%s, v)' % (f, z), '%s(%s, v)' % (f, e))
            R('transformation by a null versor', 'ga.lt(%s)' % z, 'ga.lt(%s)' % e)


def big(ck, W):
    """closed formulas exist up to five dimensions"""
    for n in (5, 6, 7):
        A = Alg(ck, W, n, [[cconst(1) if i == j else {} for j in range(n)] for i in range(n)], None, 'Euclidean, n=%d' % n, H=lambda W, n, g, c: CRec(W, n, g, c, skip=SKIP))
        R = Rules(ck, W, A, Client(A, coords=False))
        if n == 5:
            R.accept('closed formula of the inverse: e1.hitzer_inverse()', R.C.entry('e1.hitzer_inverse()'))
        else:
            for z in ('e1', 'e12', '(2 * e1)', '(1 + e1)', '(3 + 0 * e1)'):
                R('closed formula of the inverse', '%s.hitzer_inverse()' % z)


def nocoords(ck, W, A, C):
    R = Rules(ck, W, A, C)
    for f in ('X', 'grads', 'Xvec'):
        if W.Ga.lookup(f) is not None:
            R('algebra without coordinates', "ga.%s()" % f if f != 'Xvec' else 'ga.coord_vec')
    R('algebra without coordinates', "ga.mv('A', 'vector', f=True)", "ga.mv('A', 'vector')")


def systems_(ck, W):
    for ortho in (True, False):
        A = Alg(ck, W, 2, f2(2, ortho=ortho), ['x', 'y'], '%s coordinates, n=2' % ('orthogonal' if ortho else 'oblique'), H=CBuild)
        C = Client(A)
        R = Rules(ck, W, A, C)
        for md in ('0', '3', "'1'", 'None', '-1'):
            R('kind of Christoffel symbols', "ga.Christoffel_symbols(%s)" % md)
            R('kind of Christoffel symbols', "ga.Christoffel_symbols(mode=%s)" % md)
        for md in (1, 2):
            R.accept('kind of Christoffel symbols: ga.Christoffel_symbols(%d)' % md, C.entry("ga.Christoffel_symbols(%d)" % md))
    for n, g, b in ((2, gatoms(2, False), 'e*1|2'), (3, gatoms(3, False), 'e*1|2|3')):
        A = Alg(ck, W, n, g, None, 'n=%d' % n, H=lambda W, n, g, c: CBuild(W, n, g, c, names=[str(i + 1) for i in range(n)]))
        C = Client(A, coords=False)
        R = Rules(ck, W, A, C)
        N = dict(N=lambda m, get: A.H.matrix(A.H.raw))
        for h in ("'x'", "'m'", "'E'", '%d' % (n + 1), 'None', "''", '(%d, 0)' % n):
            R('hint of the signature', "Ga('%s', g=N, sig=%s)" % (b, h), **N)
        for h in ("'e'", "'m+'", "'m-'", '%d' % n, '1', '0'):
            R.accept("hint of the signature: Ga('%s', g=N, sig=%s)" % (b, h), C.entry("Ga('%s', g=N, sig=%s)" % (b, h), **N))
        for x in ('3', 'None', "['e_1', 'e_2']", 'k'):
            R('basis that is not a string', "Ga(%s, g=N)" % x, **N)
