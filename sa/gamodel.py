"""galgebra-specific configuration of the interpreter: abstract algebras, multivectors,
differential operators and linear transformations used as entry states by the rules."""
import ast
from fractions import Fraction

from .vals import *
from .vals import V
from .interp import Hooks, Interp, PyRaise, is_notimpl, deco_name
from .prog import ClassInfo, AnalysisBroken


class World:
    """anchors into the program under analysis"""

    def __init__(self, prog):
        self.prog = prog
        self.Mv = prog.cls('mv', 'Mv')
        self.Dop = prog.cls('mv', 'Dop')
        self.Sdop = prog.cls('dop', 'Sdop')
        self.Pdop = prog.cls('dop', 'Pdop')
        self.Ga = prog.cls('ga', 'Ga')
        self.Sm = prog.cls('ga', 'Sm')
        self.Lt = prog.cls('lt', 'Lt')
        self.Mlt = prog.cls('lt', 'Mlt')
        self.Metric = prog.cls('metric', 'Metric')

    def has(self, cls, name):
        return cls.lookup(name) is not None

    # entry objects (a new one per trace) -----------------------------------
    def ga(self, name='ga', **f):
        return Obj(name, self.Ga, fields=f)

    def mv(self, name, ga, **f):
        d = {'Ga': ga, 'obj': T(name + '.obj', typ='sympy.Expr'), 'is_blade_rep': T(name + '.is_blade_rep', typ='builtins.bool')}
        d.update(f)
        return Obj(name, self.Mv, fields=d)

    def pdop(self, name):
        return Obj(name, self.Pdop, fields={'pdiffs': T(name + '.pdiffs', typ='builtins.dict'), 'order': T(name + '.order', typ='builtins.int')})

    def dop(self, name, ga, cmpflg=None):
        c = self.mv(name + '.coef', ga)
        p = self.pdop(name + '.pdiff')
        o = Obj(name, self.Dop, fields={
            'Ga': ga, 'cmpflg': T(name + '.cmpflg', typ='builtins.bool') if cmpflg is None else Const(cmpflg),
            'terms': Seq('tuple', [Each(Seq('tuple', [c, p]))])})
        return o

    def sdop(self, name):
        p = self.pdop(name + '.pdiff')
        return Obj(name, self.Sdop, fields={'terms': Seq('tuple', [Each(Seq('tuple', [T(name + '.coef', typ='sympy.Expr'), p]))])})

    def lt(self, name, ga, **f):
        d = {'Ga': ga, 'mat': NONE, 'versor': FALSE, 'spinor': FALSE, 'fct_flg': FALSE, 'mode': Const('g'),
             'lt_dict': Dct([], T(name + '.lt_dict'))}
        d.update(f)
        return Obj(name, self.Lt, fields=d)

    def mlt(self, name, ga, **f):
        d = {'Ga': ga, 'nargs': T(name + '.nargs', typ='builtins.int'), 'fvalue': T(name + '.fvalue', typ='sympy.Expr'), 'f': NONE}
        d.update(f)
        return Obj(name, self.Mlt, fields=d)

    def expr(self, name):
        return T(name, typ='sympy.Expr')


def public_methods(ci):
    for n, st in ci.members.items():
        if isinstance(st, ast.FunctionDef) and (not n.startswith('_') or n.startswith('__')) and '$' not in n:
            yield n, st


# ---------------------------------------------------------------------------
# model of the algebra layer
PRODUCTS = {'mul': 'gp', 'wedge': 'wedge', 'hestenes_dot': 'hd', 'left_contract': 'lc', 'right_contract': 'rc',
            'scalar_product': 'sp'}
EXPR = 'sympy.Expr'
BOOL = 'builtins.bool'


def is_mv(W, v):
    return (isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and W.Mv in v.cls.mro()) or (
        isinstance(v, T) and isinstance(v.typ, ClassInfo) and W.Mv in v.typ.mro())


def is_ga(W, v):
    return isinstance(v, Obj) and isinstance(v.cls, ClassInfo) and W.Ga in v.cls.mro()


def ga_of(W, v):
    """the algebra an abstract multivector belongs to"""
    if isinstance(v, Obj):
        g = v.fields.get('Ga')
        return g if isinstance(g, V) else None
    if isinstance(v, T):
        for a in v.args:
            if isinstance(a, V) and is_mv(W, a):
                return ga_of(W, a)
            if is_ga(W, a):
                return a
    return None


class GaHooks(Hooks):
    """the Ga layer seen from the multivector layer: the products and grade
    operations on expressions are primitive, everything else is interpreted"""
    skip = ()

    def __init__(self, W, skip=()):
        self.W = W
        self.skip = set(skip)
        self.calls = []

    # which function is called
    def qual(self, f):
        fn = f.fn if isinstance(f, Bound) else f
        return fn.qual if isinstance(fn, Fn) else None

    def product(self, m, op, name, args, kw, node, ga):
        if len(args) != 2 or kw:
            return T('call', Prim(name, None), *m.flat(args, kw))
        m.note('product', node, name, args[0], args[1], ga)
        return T(op, args[0], args[1], typ=EXPR)

    def getattr(self, m, o, name, node):
        W = self.W
        if is_ga(W, o):
            if name in PRODUCTS and ('Ga.' + name) not in self.skip and name not in o.fields:
                if W.Ga.lookup(name) is None:
                    return None
                op = PRODUCTS[name]
                return Prim(name, lambda mm, a, k, n: self.product(mm, op, name, a, k, n, o))
            if name in ('i', 'i_inv', 'e') and name not in o.fields:
                o.fields[name] = Obj('%s.%s' % (o.name, name), W.Mv, fields={
                    'Ga': o, 'obj': T('%s.%s.obj' % (o.name, name), typ=EXPR), 'is_blade_rep': TRUE})
                return o.fields[name]
            if name == 'n' and name not in o.fields:
                return T('attr', o, 'n', typ='builtins.int')
            if name in ('is_ortho', 'connect_flg') and name not in o.fields:
                return T('attr', o, name, typ=BOOL)
            if name in ('e_sq', 'detg') and name not in o.fields and 'Ga.' + name not in self.skip:
                return T('attr', o, name, typ=EXPR)
        return None

    def compare(self, m, op, l, r, node):
        W = self.W
        if op in ('==', '!=') and is_ga(W, l) and is_ga(W, r):
            return Const((l.name == r.name) == (op == '=='))
        return None

    GA_METHODS = {
        'Ga.base_to_blade_rep': ('toblade', EXPR), 'Ga.blade_to_base_rep': ('tobase', EXPR), 'Ga.reverse': ('rev', EXPR),
        'Ga.scalar_part': ('scal', EXPR), 'Ga.grades': ('grades', 'builtins.list'),
    }

    def args_of(self, m, f, args, kw, node):
        """actual arguments by parameter name (None when they do not fit)"""
        fn = f.fn if isinstance(f, Bound) else f
        try:
            return m.bind(fn, ([f.self_] if isinstance(f, Bound) else []) + list(args), kw, node)
        except PyRaise:
            return None

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q is None or q in self.skip:
            return None
        return self.ga_call(m, f, q, args, kw, node)

    def ga_call(self, m, f, q, args, kw, node):
        if q in self.GA_METHODS and isinstance(f, Bound):
            if len(args) == 1 and not kw:
                op, typ = self.GA_METHODS[q]
                x = args[0]
                if is_mv(self.W, x):
                    x = m.getattr(x, 'obj', node)
                m.note('gaop', node, q, x, f.self_)
                return T(op, x, typ=typ)
        if q == 'Ga.even_odd' and isinstance(f, Bound):
            b = self.args_of(m, f, args, kw, node)
            if b is None:
                return None
            ps = [p.arg for p in f.fn.node.args.args]
            m.note('gaop', node, q, b[ps[1]], f.self_)
            return T('even' if m.truth(b[ps[2]], node) else 'odd', b[ps[1]], typ=EXPR)
        if q == 'Ga.get_grade' and isinstance(f, Bound):
            b = self.args_of(m, f, args, kw, node)
            if b is None:
                return None
            ps = [p.arg for p in f.fn.node.args.args]
            m.note('gaop', node, q, b[ps[1]], f.self_)
            return T('grade', b[ps[1]], b[ps[2]], typ=EXPR)
        if q in ('Simp.apply',):
            return T('id', args[0], typ=EXPR)
        if q in ('collect',) and f.module.name.endswith('metric'):
            return T('id', args[0], typ=EXPR)
        if q == 'Mv.characterise_Mv':
            m.note('characterise', node, f.self_ if isinstance(f, Bound) else args[0])
            return NONE
        return None

    def ext(self, m, name, args, kw, node):
        short = name.split('.')[-1]
        if short in ('expand', 'simplify', 'trigsimp', 'together', 'cancel', 'factor') and name.startswith('sympy') and args:
            a = args[0]
            if is_mv(self.W, a):
                m.note('mv-to-sympy', node, short, a)
                return None
            if isinstance(a, (T, Const)):
                return T('id', a, typ=getattr(a, 'typ', None) or EXPR)
        return None


class MvHooks(GaHooks):
    """multivector arithmetic primitive as well: used for the operations derived
    from the products (assume-guarantee: the products themselves are checked with GaHooks)"""
    MV1 = {'Mv.rev': 'rev', 'Mv.even': 'even', 'Mv.odd': 'odd', 'Mv.g_invol': 'ginv', 'Mv.blade_rep': 'toblade',
           'Mv.base_rep': 'tobase', 'Mv.trigsimp': 'id', 'Mv.simplify': 'id', 'Mv.expand': 'id'}
    MVB = {'Mv.is_scalar': 'is_scalar', 'Mv.is_vector': 'is_vector', 'Mv.is_zero': 'is_zero', 'Mv.is_blade': 'is_blade',
           'Mv.is_versor': 'is_versor', 'Mv.is_base': 'is_base'}

    def mvt(self, m, op, *args):
        return T(op, *args, typ=self.W.Mv)

    def getattr(self, m, o, name, node):
        if isinstance(o, T) and is_mv(self.W, o):
            if name == 'obj':
                return T('obj', o, typ=EXPR)
            if name == 'Ga':
                g = ga_of(self.W, o)
                if g is not None:
                    return g
            if name == 'is_blade_rep':
                return T('attr', o, name, typ=BOOL)
            if name == 'i_grade':
                return T('attr', o, name, typ='builtins.int')
        return super().getattr(m, o, name, node)

    def operand(self, v):
        return is_mv(self.W, v)

    def scalarish(self, v):
        return (isinstance(v, Const) and num(v.v)) or (isinstance(v, T) and (
            v.typ in (EXPR, 'builtins.int') or v.typ is None))

    OPS = {'*': 'gp', '^': 'wedge', '|': 'hd', '<': 'lc', '>': 'rc'}

    def binop(self, m, op, l, r, node):
        a, b = self.operand(l), self.operand(r)
        if not (a or b):
            return None
        if a and b or (a and self.scalarish(r)) or (b and self.scalarish(l)):
            if a and b and 'ops' not in self.skip:
                m.note('mvop', node, op, l, r)
            if op in ('+', '-'):
                return self.mvt(m, op, l, r)
            if op in self.OPS:
                return self.mvt(m, self.OPS[op], l, r)
            if op == '<<':
                return self.mvt(m, '*', Const(Fraction(1, 2), True), self.mvt(m, '+', self.mvt(m, 'gp', l, r), self.mvt(m, 'gp', r, l)))
            if op == '>>':
                return self.mvt(m, '*', Const(Fraction(1, 2), True), self.mvt(m, '-', self.mvt(m, 'gp', l, r), self.mvt(m, 'gp', r, l)))
            if op == '/':
                if not b:
                    return self.mvt(m, '/', l, r)
                return self.mvt(m, 'gp', l, self.mvt(m, 'mvinv', r))
            if op == '**':
                return self.mvt(m, '**', l, r)
        return None

    def unop(self, m, op, v, node):
        if self.operand(v):
            if op == 'neg':
                return self.mvt(m, 'neg', v)
            if op == 'inv':
                return self.mvt(m, 'rev', v)
        return None

    def compare(self, m, op, l, r, node):
        a, b = self.operand(l), self.operand(r)
        if a or b:
            if op in ('<', '>') and a and (b or self.scalarish(r)):
                return self.mvt(m, self.OPS[op], l, r)
            if op in ('==', '!='):
                return T(op, l, r, typ=BOOL)
        return super().compare(m, op, l, r, node)

    def new_mv(self, m, args, kw, node, ga):
        kw = {k: v for k, v in kw.items() if k not in ('ga', 'recp', 'coords')}
        if not args and not kw:
            return self.mvt(m, 'mv', Const(0), ga) if ga is not None else self.mvt(m, 'mv', Const(0))
        if args and not (isinstance(args[0], Const) and isinstance(args[0].v, str)) and not kw:
            x = args[0]
            rest = args[1:]
            if not rest or (len(rest) == 1 and isinstance(rest[0], Const) and rest[0].v in ('scalar', 0)):
                if isinstance(x, (T, Const, Obj)):
                    if isinstance(x, Seq):
                        return None
                    return self.mvt(m, 'mv', x, ga) if ga is not None else self.mvt(m, 'mv', x)
        return self.mvt(m, 'newmv', *[frozen_(a) for a in args], *([ga] if ga is not None else []))

    def call(self, m, f, args, kw, node):
        W = self.W
        if isinstance(f, Cls) and f.ci is W.Mv and 'Mv.__init__' not in self.skip:
            r = self.new_mv(m, args, kw, node, kw.get('ga'))
            if r is not None:
                return r
        q = self.qual(f)
        if q is None or q in self.skip:
            return None
        if q == 'Ga.mv' and isinstance(f, Bound) and args:
            r = self.new_mv(m, args, kw, node, f.self_)
            if r is not None:
                return r
        if isinstance(f, Bound) and is_mv(W, f.self_):
            s = f.self_
            if q in self.MV1:
                return self.mvt(m, self.MV1[q], s)
            if q in self.MVB:
                return T(self.MVB[q], s, typ=BOOL)
            if q == 'Mv.ccon':
                return self.mvt(m, 'rev', self.mvt(m, 'ginv', s))
            if q == 'Mv.scalar' and not args:
                return T('scal', s, typ=EXPR)
            if q in ('Mv.get_grade', 'Mv.grade'):
                b = self.args_of(m, f, args, kw, node)
                if b is not None:
                    ps = [p.arg for p in f.fn.node.args.args]
                    return self.mvt(m, 'grade', s, b[ps[1]])
            if q == 'Mv.inv':
                return self.mvt(m, 'mvinv', s)
            if q == 'Mv.qform':
                return T('scal', self.mvt(m, 'gp', self.mvt(m, 'rev', s), s), typ=EXPR)
            if q == 'Mv.sp' and 'Mv.sp' not in self.skip:
                b = self.args_of(m, f, args, kw, node)
                if b is not None:
                    ps = [p.arg for p in f.fn.node.args.args]
                    sw = b[ps[2]]
                    if isinstance(sw, Const) and sw.v in ('', 'rev'):
                        l = self.mvt(m, 'rev', s) if sw.v else s
                        return T('scal', self.mvt(m, 'gp', l, b[ps[1]]), typ=EXPR)
            DU = {'Mv.__add__': '+', 'Mv.__sub__': '-', 'Mv.__mul__': '*', 'Mv.__xor__': '^', 'Mv.__or__': '|', 'Mv.__truediv__': '/',
                  'Mv.__lt__': '<', 'Mv.__gt__': '>', 'Mv.__lshift__': '<<', 'Mv.__rshift__': '>>', 'Mv.__pow__': '**'}
            if q in DU and len(args) == 1:
                o = DU[q]
                return self.compare(m, o, s, args[0], node) if o in '<>' else self.binop(m, o, s, args[0], node)
        if q == 'Ga.I' and isinstance(f, Bound):
            return m.getattr(f.self_, 'i', node)
        if q == 'Ga.E' and isinstance(f, Bound):
            return m.getattr(f.self_, 'e', node)
        return super().call(m, f, args, kw, node)


def frozen_(v):
    from .interp import frozen
    return frozen(v)
