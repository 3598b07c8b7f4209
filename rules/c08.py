"""C08: results do not depend on the representation of the operands."""
from rules.concrule import *
from rules.curved import f2
from sa.conc import Build

SKIP = ('linear_expand', 'linear_expand_terms', 'Mv.characterise_Mv', 'Ga.grades', 'Ga.scalar_part', 'Ga.get_grade', 'Ga.even_odd', 'collect')



def OP(m, op, l, r, node):
    return m.compare_op(op, l, r, node) if op in ('<', '>', '==', '!=') else m.binop(op, l, r, node)



class KnownMixin:
    """functions such as cos of equal expressions are equal atoms; the sign of the metric is given"""
    definite = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.fnatoms = []

    def lin(self, v):
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and self.W.Mv in v.cls.mro():
            b, x = v.fields.get('is_blade_rep'), v.fields.get('obj')
            d = self.val(x) if isinstance(x, (T, Const)) else None
            if isinstance(b, Const) and d is not None and any(len(w) == 1 and w[0][0] == ('B' if b.v else 'b') for w in d):
                raise Wrong('a mixture of representations')
        return super().lin(v)

    def product(self, m, op, name, args, kw, node, ga):
        # the products of blades are only defined for blades, the geometric product of bases for bases
        if name != 'mul':
            for a in args:
                d = self.val(a) if isinstance(a, (T, Const)) else None
                if d is not None and any(len(w) == 1 and w[0][0] == 'B' for w in d):
                    raise PyRaise(Const('not a blade'), 'KeyError', node, m.where(node))
        return super().product(m, op, name, args, kw, node, ga)

    def ext(self, m, name, args, kw, node):
        sh = name.split('.')[-1]
        if name.startswith('sympy') and sh in ('cos', 'sin', 'cosh', 'sinh', 'exp', 'Abs') and len(args) == 1 and not kw and isinstance(args[0], (T, Const)):
            c = self.coef(args[0])
            if c is not None and not clear(c):
                return Const({'cos': 1, 'cosh': 1, 'exp': 1}.get(sh, 0), True)
            if c is not None:
                for f, x, at in self.fnatoms:
                    if f == sh and ceq(x, c):
                        return self.cval(at)
                at = self.sym('%s#%d' % (sh, len(self.fnatoms)))
                self.fnatoms.append((sh, c, at))
                return self.cval(at)
        return super().ext(m, name, args, kw, node)

    def compare(self, m, op, l, r, node):
        # no expression has a known sign unless it is a number
        for a, b in ((l, r), (r, l)):
            if op in ('==', '!=') and isinstance(a, Const) and isinstance(a.v, bool) and isinstance(b, T) and b.op in ('<', '>', '<=', '>='):
                return Const(op == '!=')
        return super().compare(m, op, l, r, node)

    def matattr(self, m, o, name, node):
        if name == 'is_positive_definite':
            return Const(self.definite)
        return super().matattr(m, o, name, node)


class Known(KnownMixin, Conc):
    pass


class KnownBuild(KnownMixin, Build):
    pass


class Definite(Known):
    definite = True


def run(ck, W):
    ck.rule('unary', 'a method of one multivector gives the same value in base and in blade representation')
    ck.rule('binary', 'an operation of two multivectors gives the same value for each combination of representations')
    ck.rule('operator', 'a differential operator or a transformation acts the same on, and with coefficients in, either representation')
    ck.rule('convert', 'conversion between the representations keeps the value, and is undone by the opposite conversion')
    for n in (2, 3):
        one(ck, W, n, gatoms(n, False), Definite if n == 3 else Known, 'n=%d' % n)
    one(ck, W, 2, f2(2), KnownBuild, 'oblique coordinates, n=2', curved=True)
    return ck.finish('Abstract interpretation of every operation on multivectors, over algebras with an uninterpreted metric, once for each combination of '
                     'representations of its operands; the values, read as coefficients of blades, are compared with each other.', min_decided=50)


def one(ck, W, n, g, cls, nm, curved=False):
    A = Alg(ck, W, n, g, ('x', 'y', 'z')[:n], nm, H=lambda W, n, g, c: cls(W, n, g, c, skip=SKIP))
    H, cl = A.H, A.H.cl
    S = cl.subsets
    box = []

    def shared(m):
        if not box:
            if curved:
                box.append(H.built(m))
                return box[0]
            ga = H.ga()
            s = H.sym('s')        # normalisation of the pseudoscalar
            ga.fields['i'] = H.mvobj(ga, {S[-1]: s}, 'I')
            ga.fields['i_inv'] = H.mvobj(ga, {S[-1]: cneg(s) if n == 2 else s}, 'Iinv')
            box.append(ga)
        return box[0]

    def gen(root, ws):
        return {w: H.sym(root + ''.join(map(str, w))) for w in ws}

    def num(ws):
        return {w: cconst(k + 2) for k, w in enumerate(ws)}
    V1 = [w for w in S if len(w) == 1]
    kinds = {'general': gen('a', S), 'of grade 2': gen('a', [w for w in S if len(w) == 2]), 'even': gen('a', [w for w in S if len(w) % 2 == 0]), 'numeric': num(S), 'vector': gen('a', V1),
             'blade': {(0, 1): cconst(1)}, 'zero': {}, 'scalar': gen('a', [()]), 'pseudoscalar': gen('a', [S[-1]])}
    mk = lambda base: (H.basemv if base else H.mvobj)

    def rd_any(v):
        """value in blades, whatever kind of value it is"""
        if isinstance(v, Seq) and v.concrete():
            return ['seq'] + [rd_any(x) for x in v.items]
        if isinstance(v, Obj) and W.Mv in getattr(v.cls, 'mro', lambda: [])():
            return A.mv(v)
        if isinstance(v, Const) and (v.v is None or isinstance(v.v, (bool, str))):
            return repr(v.v)
        if H.is_matrix(v):
            return A.mat(v)
        if isinstance(v, Obj):
            raise NoRead(short(v, 200))
        # a plain expression: its value in blades (a term mixing both representations has none)
        d = H.lin(v)
        if d is not None:
            return d
        raise NoRead(short(v, 200))

    def same(rule, subj, entry, nargs, where_, only=None):
        subj_ = '%s [%s]' % (subj, A.name)
        ref = None
        cases = [c for c in [tuple(bool(k >> i & 1) for i in range(nargs)) for k in range(1 << nargs)]]
        for case in cases:
            nm = ' with '.join('base' if c else 'blade' for c in case)
            try:
                tr = A.I.run(lambda m: entry(m, *case))
            except RecursionError:
                ck.undecided(rule, subj_, 'recursion')
                return
            out = None
            for t in tr:
                und = [c for c, v in t.facts if not isinstance(c, Const)]
                if und and len(tr) > 1 or t.kind not in ('return', 'raise'):
                    ck.undecided(rule, subj_, 'undecided condition %s' % short(und[0], 160) if und else '%s %s' % (t.kind, short(t.exc, 160)))
                    return
                if t.kind == 'raise' or is_notimpl(t.value):
                    got = ('raises', t.exc if t.kind == 'raise' else 'TypeError')
                else:
                    try:
                        got = rd_any(t.value)
                    except Wrong as e:
                        got = ('value', str(e))
                    except NoRead as e:
                        ck.undecided(rule, subj_, '%s: value %s' % (nm, e))
                        return
                    except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
                        ck.undecided(rule, subj_, '%s: value %s' % (nm, short(t.value, 200)))
                        return
                if out is not None and not A.eq(out[0], got):
                    ck.undecided(rule, subj_, '%s: paths with different values' % nm)
                    return
                out = (got, t)
            if out is None:
                ck.undecided(rule, subj_, 'no path')
                return
            if ref is None:
                ref = out[0]
                continue
            if isinstance(ref, tuple) and ref and ref[0] == "value":
                ck.bad(rule, subj_, where_ or tr[0].where or 'galgebra', 'is %s for operands in blade representation' % ref[1])
                return
            raised = [isinstance(x, tuple) and x and x[0] == 'raises' for x in (ref, out[0])]
            if raised[0] and raised[1]:
                continue
            if raised[0] != raised[1]:
                ck.bad(rule, subj_, where_ or out[1].where or 'galgebra', '%s representation: %s; blade representation: %s' % (nm, *('raises %s' % x[1] if isinstance(x, tuple) and x[:1] == ('raises',) else 'is %s' % x[1] if isinstance(x, tuple) else A.pp(x) for x in (out[0], ref))), facts_of(out[1]))
                return
            if not A.eq(ref, out[0]):
                ck.bad(rule, subj_, where_ or out[1].where or 'galgebra', 'is %s in %s representation, %s in blade representation' % (A.pp(out[0]), nm, A.pp(ref)), facts_of(out[1]))
                return
        ck.ok(rule, subj_)

    wh = lambda f: where(W, W.Mv, f)
    coord = lambda i: H.scal('xyz'[i])
    # ---- one operand
    un = [('rev', ()), ('ccon', ()), ('g_invol', ()), ('even', ()), ('odd', ()), ('scalar', ()), ('components', ()), ('blade_coefs', ()), ('list', ()), ('pure_grade', ()), ('is_scalar', ()), ('is_vector', ()),
          ('is_zero', ()), ('is_base', ()), ('__neg__', ()), ('dual', ()), ('undual', ()), ('qform', ()), ('norm2', ()), ('mag2', ()), ('expand', ()), ('grade', (1,)), ('grade', (2,)), ('grade', ()), ('__getitem__', (0,)), ('get_grade', (2,)),
          ('get_coefs', (1,)), ('get_coefs', (2,)), ('is_blade', ()), ('is_versor', ()), ('__pow__', (2,)), ('__pow__', (3,)), ('__pow__', (0,)), ('inv', ()), ('exp', ()), ('__pow__', (-1,)), ('shirokov_inverse', ()), ('hitzer_inverse', ())]
    heavy = ('is_versor', 'inv', 'exp', 'shirokov_inverse', 'hitzer_inverse')
    if curved:
        kinds, un = {k: kinds[k] for k in ('general', 'of grade 2', 'blade')}, []
    for kn, d in kinds.items():
        for f, a in un:
            if f in heavy and (kn in ('general', 'even', 'numeric') and (n > 2 or f == 'hitzer_inverse') or n > 2 and f != 'is_versor'):
                continue
            if f in ('inv', '__pow__') and kn == 'zero' and a in ((), (-1,)):
                continue
            if f == '__pow__' and a == (3,) and n > 2:
                continue

            def entry(m, base, f=f, a=a, d=d):
                return m.call_method(mk(base)(shared(m), d, 'A'), f, [Const(x) for x in a], {}, None)
            same('unary', '%s%s of a %s multivector' % (f.strip('_'), list(a) if a else '', kn), entry, 1, wh(f))
        for nm, f in (('multiplied by a scalar', lambda m, x: OP(m, '*', x, H.scal('k'), None)), ('a scalar times it', lambda m, x: OP(m, '*', H.scal('k'), x, None)),
                      ('divided by a scalar', lambda m, x: OP(m, '/', x, H.scal('k'), None)), ('plus a scalar', lambda m, x: OP(m, '+', x, H.scal('k'), None)), ('a scalar minus it', lambda m, x: OP(m, '-', H.scal('k'), x, None)),
                      ('wedge a scalar', lambda m, x: OP(m, '^', x, H.scal('k'), None)), ('left contracted by a scalar', lambda m, x: OP(m, '<', H.scal('k'), x, None)), ('compared with a scalar', lambda m, x: OP(m, '==', x, H.scal('k'), None))):
            try:
                same('unary', '%s multivector %s' % (kn, nm), lambda m, base, f=f, d=d: f(m, mk(base)(shared(m), d, 'A')), 1, None)
            except TypeError as e:
                raise
        for i in range(n):
            for how in ('diff', 'pDiff'):
                def entry(m, base, how=how, i=i, d=d):
                    ga = shared(m)
                    x = mk(base)(ga, {w: cmul(c, H.coef(coord(i))) for w, c in d.items()}, 'A')
                    return m.call_method(x, 'diff', [coord(i)], {}, None) if how == 'diff' else m.call_method(ga, 'pDiff', [x, coord(i)], {}, None)
                same('unary', 'derivative of a %s multivector along %s by %s' % (kn, 'xyz'[i], how), entry, 1, wh('diff'))
        same('unary', 'a copy of a %s multivector' % kn, lambda m, base, d=d: m.call(m.module_name(W.prog.module('mv'), 'Mv'), [mk(base)(shared(m), d, 'A')], {'ga': shared(m)}, None), 1, wh('__init__'))
        if curved:
            continue
        for f, g in (('base_rep', 'blade_rep'), ('blade_rep', 'base_rep')):
            same('convert', '%s of a %s multivector' % (f, kn), lambda m, base, f=f, d=d: m.call_method(mk(base)(shared(m), d, 'A'), f, [], {}, None), 1, wh(f))
            same('convert', '%s after %s of a %s multivector' % (g, f, kn), lambda m, base, f=f, g=g, d=d: m.call_method(m.call_method(mk(base)(shared(m), d, 'A'), f, [], {}, None), g, [], {}, None), 1, wh(g))
    # ---- two operands
    second = {'general': gen('b', S), 'of grade 2': gen('b', [w for w in S if len(w) == 2]), 'blade': {(0, 1): cconst(3)}, 'vector': gen('b', V1)}
    ops = ['+', '-', '*', '^', '|', '<', '>', '==', '!=', '<<', '>>']
    pairs = [('general', 'general'), ('of grade 2', 'general'), ('general', 'blade'), ('even', 'vector'), ('scalar', 'general'), ('zero', 'of grade 2'), ('pseudoscalar', 'blade'), ('blade', 'of grade 2')]
    meth = ['sp', 'project_in_blade', 'reflect_in_blade']
    mv = W.prog.module('mv')
    funs = ['com', 'compare', 'proj', 'refl']
    for a, b in pairs if not curved else ():
        da, db = kinds[a], second[b]
        for op in ops:
            same('binary', '%s %s %s' % (a, op, b), lambda m, p, q, op=op: OP(m, op, mk(p)(shared(m), da, 'A'), mk(q)(shared(m), db, 'B'), None), 2, None)
        same('binary', '%s == the same value' % a, lambda m, p, q: OP(m, '==', mk(p)(shared(m), da, 'A'), mk(q)(shared(m), da, 'B'), None), 2, None)
        for f in meth:
            same('binary', '%s of %s and %s' % (f, a, b), lambda m, p, q, f=f: m.call_method(mk(p)(shared(m), da, 'A'), f, [mk(q)(shared(m), db, 'B')], {}, None), 2, wh(f))
        same('binary', 'sp with reversion of %s and %s' % (a, b), lambda m, p, q: m.call_method(mk(p)(shared(m), da, 'A'), 'sp', [mk(q)(shared(m), db, 'B'), Const('rev')], {}, None), 2, wh('sp'))
        for f in funs:
            same('binary', 'function %s of %s and %s' % (f, a, b), lambda m, p, q, f=f: m.call(m.module_name(mv, f), [mk(p)(shared(m), da, 'A'), mk(q)(shared(m), db, 'B')], {}, None), 2, None)
        same('binary', '%s divided by %s' % (a, b), lambda m, p, q: OP(m, '/', mk(p)(shared(m), da, 'A'), mk(q)(shared(m), db, 'B'), None), 2, wh('__truediv__'))
        for f in ('proj', 'blade_coefs'):
            bl = [(0, 1), ()]
            same('binary', '%s of %s on blades' % (f, a), lambda m, p, q, f=f: m.call_method(mk(p)(shared(m), da, 'A'), f, [Seq('list', [mk(q)(shared(m), {w: cconst(1)}, 'b') for w in bl])], {}, None), 2, wh(f))
    # ---- operators
    vecimg = [{(j,): H.sym('l%d%d' % (j, i)) for j in range(n)} for i in range(n)]
    dmod = W.prog.module('dop')

    def dop(m, base, op=None):
        ga = shared(m)
        if 'gr' not in done:
            m.call_method(ga, '_build_grads', [], {}, None)
            done.add('gr')
        P = m.call(m.module_name(dmod, 'Pdop'), [coord(0)], {}, None)
        return m.call(m.getattr(ga, 'dop', None), [Seq('list', [mk(base)(ga, second['general'], 'c'), mk(base)(ga, second['of grade 2'], 'c')]), Seq('list', [P, m.call(m.module_name(dmod, 'Pdop'), [Dct([])], {}, None)])], {}, None)
    done = set()
    for kn in ('general', 'of grade 2', 'scalar', 'blade') if not curved else ('general', 'blade'):
        d = {w: cmul(c, H.coef(coord(0))) for w, c in kinds[kn].items()}
        for op in ('*', '^', '|', '<', '>'):
            same('operator', 'differential operator %s %s multivector' % (op, kn), lambda m, p, q, op=op, d=d: OP(m, op, dop(m, p), mk(q)(shared(m), d, 'A'), None), 2, None)
        same('operator', '%s multivector times a differential operator, applied' % kn, lambda m, p, q, d=d: OP(m, '*', OP(m, '*', mk(p)(shared(m), d, 'A'), dop(m, q), None), H.mvobj(shared(m), d, 'B'), None), 2, None)
        for side in ('grad', 'rgrad'):
            def entry(m, p, side=side, d=d):
                ga = shared(m)
                dop(m, False)
                G = m.getattr(ga, side, None)
                x = mk(p)(ga, d, 'A')
                return OP(m, '*', G, x, None) if side == 'grad' else OP(m, '*', x, G, None)
            same('operator', '%s of a %s multivector' % (side, kn), entry, 1, None)

        def lt(m, p, d=d):
            ga = shared(m)
            F = m.call(m.getattr(ga, 'lt', None), [Dct([[H.blade((j,)), H.unlin(vecimg[j])] for j in range(n)])], {}, None)
            return m.call(F, [mk(p)(ga, d, 'A')], {}, None)
        same('operator', 'transformation of a %s multivector' % kn, lt, 1, None)

    def vers(m, p, q):
        ga = shared(m)
        R = {(): cconst(2), (0, 1): cconst(3)}
        F = m.call(m.getattr(ga, 'lt', None), [mk(p)(ga, R, 'R')], {}, None)
        return m.call(F, [mk(q)(ga, gen('a', V1), 'A')], {}, None)
    if n == 2 and not curved:
        same('operator', 'transformation by a versor', vers, 2, None)
