"""Client expressions: small source expressions interpreted against an algebra of the model."""
import ast
from rules.concrule import *
from rules.c02 import Rec, RecBuild, SKIP
from rules.c25 import fn
from sa.conc import Build
from sa.interp import Frame


# members of the classes of the package that expressions have as well
COMMON = {'_eval_derivative_n_times', '_latex', '_repr_disabled', '_repr_latex_', '_repr_png_', '_repr_svg_', 'collect', 'diff', 'exp', 'expand', 'func', 'is_scalar', 'is_singular', 'is_zero', 'nargs', 'simplify', 'subs', 'trigsimp'}


class ClientMixin:
    """expressions, numbers and strings have no members of multivectors, operators or maps"""

    def getattr(self, m, o, name, node):
        if name not in COMMON and not name.startswith('__') and (isinstance(o, Const) or isinstance(o, T) and self.coef(o) is not None):
            if not hasattr(self, 'own_'):
                self.own_ = set('Ga obj i_grade grades terms cmpflg fvalue lt_dict'.split())
                for c in (self.W.Mv, self.W.Dop, self.W.Lt, self.W.Mlt):
                    for k in c.mro():
                        self.own_ |= set(getattr(k, "members", ()))
            if name in self.own_ and not (isinstance(o, Const) and hasattr(o.v, name)):
                raise PyRaise(Const('no attribute ' + name), 'AttributeError', node, m.where(node))
        return super().getattr(m, o, name, node)


class CRec(ClientMixin, Rec):
    pass


class CBuild(ClientMixin, RecBuild):
    pass


class Client:
    """names available to client expressions, built when an expression uses them"""

    def __init__(self, A, coords=True):
        self.A, self.H, self.W = A, A.H, A.W
        self.coords = coords
        self.box = []
        self.shared = None

    def setup(self, m):
        H = self.H
        if isinstance(H, Build):
            return H.built(m)
        ga = H.ga()
        s = H.sym('s')
        ga.fields['i'] = H.mvobj(ga, {H.cl.subsets[-1]: s}, 'I')
        ga.fields['i_inv'] = H.mvobj(ga, {H.cl.subsets[-1]: s}, 'Iinv')
        if self.coords:
            m.call_method(ga, '_build_grads', [], {}, None)
        return ga

    def gen(self, root, ws):
        x0 = self.H.coef(self.H.scal(self.H.coords[0])) if self.coords else cconst(1)
        return {w: cmul(self.H.sym(root + ''.join(map(str, w))), x0) for w in ws}

    def make(self, m, nm, get):
        H, W, n = self.H, self.W, self.H.n
        S = H.cl.subsets
        R = range(n)
        mod = lambda x: W.prog.module(x)
        call = lambda f, *a, **k: m.call(f, list(a), k, None)
        if nm == 'ga':
            return self.setup(m)
        if nm == 'A' or nm == 'B':
            return H.mvobj(get('ga'), self.gen(nm.lower(), S), nm)
        if nm in ('v', 'w', 'u', 'p', 'q'):
            return H.mvobj(get('ga'), self.gen(nm, [w for w in S if len(w) == 1]), nm)
        if nm == 'b':
            return H.mvobj(get('ga'), self.gen('b', [w for w in S if len(w) == 2]), nm)
        if nm == 's':
            return H.mvobj(get('ga'), self.gen('s', [()]), nm)
        if nm == 'zero':
            return H.mvobj(get('ga'), {}, nm)
        if nm.startswith('e') and nm[1:].isdigit():
            return H.mvobj(get('ga'), {tuple(int(c) - 1 for c in nm[1:]): cconst(1)}, nm)
        if nm in ('x', 'y', 'z', 't'):
            return H.scal(nm)
        if nm in ('k', 'l'):
            return H.scal(nm)
        if nm in ('P', 'Q'):
            return call(m.module_name(mod('dop'), 'Pdop'), get('x' if nm == 'P' else 'y'))
        if nm in ('Sd', 'Se'):
            return call(m.module_name(mod('dop'), 'Sdop'), Seq('list', [Seq('tuple', [H.scal('c' + nm), get('P')]), Seq('tuple', [get('x'), get('Q')])]))
        if nm in ('D', 'E', 'Dr'):
            k = {'cmpflg': TRUE} if nm == 'Dr' else {}
            return call(m.getattr(get('ga'), 'dop', None), Seq('list', [get('A'), get('v')]), Seq('list', [get('P'), get('Q')]), **k)
        if nm in ('F', 'G'):
            return call(m.getattr(get('ga'), 'lt', None), Dct([[H.blade((j,)), H.unlin({(i,): H.sym('%s%d%d' % (nm, i, j)) for i in R})] for j in R]))
        if nm == 'M':
            return H.matrix([[H.sym('m%d%d' % (i, j)) for j in R] for i in R])
        if nm in ('T1', 'T2', 'U1', 'U2'):
            r = int(nm[1])
            ps = ['u', 'w'][:r]

            def f(mm, a, k, nd):
                v = [H.lin(y) for y in a]
                if len(v) != r:
                    raise PyRaise(Const('wrong number of arguments'), 'TypeError', nd, mm.where(nd))
                t = {}
                for i in R:
                    for j in R if r > 1 else [0]:
                        c = H.sym('%s%d%d' % (nm, i, j))
                        c = cmul(c, v[0].get((i,), {}))
                        if r > 1:
                            c = cmul(c, v[1].get((j,), {}))
                        t = cadd(t, c)
                return H.cval(t)
            return call(m.module_name(mod('lt'), 'Mlt'), fn(ps, f), get('ga'))
        return None

    def names(self, nm):
        """a name of the package: the module that defines it"""
        for mn in ('mv', 'lt', 'dop', 'ga', 'metric', 'printer', 'atoms'):
            mod = self.W.prog.module(mn)
            if mod is not None and self.W.prog.resolve_name(mod, nm) is not None:
                return mod
        return None

    def entry(self, src, **extra):
        """entry(m) evaluating the expression `src`"""
        tree = ast.parse(src.strip(), mode='eval').body
        used = [n.id for n in ast.walk(tree) if isinstance(n, ast.Name)]

        def go(m, shared=None):
            fr = Frame(self.W.prog.module('mv'), qual='<client>')
            if not self.box:
                self.A.I.run(lambda mm: self.box.append(self.setup(mm)))
            env = {} if shared is None else shared
            env['ga'] = self.box[0]

            def get(nm):
                if nm not in env:
                    if nm in extra:
                        env[nm] = extra[nm](m, get) if callable(extra[nm]) else extra[nm]
                    else:
                        v = self.make(m, nm, get)
                        if v is None:
                            mod = self.names(nm)
                            v = m.module_name(mod, nm) if mod is not None else None
                        env[nm] = v
                return env[nm]
            for nm in used:
                if get(nm) is not None:
                    fr.vars[nm] = env[nm]
            return m.eval(tree, fr)
        return go

