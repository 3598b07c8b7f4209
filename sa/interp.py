"""Value-flow abstract interpreter.

Interprets the *syntax trees* of the tree under analysis over abstract values
(sa.vals): unknown inputs are uninterpreted terms, unknown loops are summarised
by one representative iteration, branches on unknown conditions partition the
trace.  Nothing of galgebra or sympy is executed.
"""
import os
import ast
from fractions import Fraction

from .vals import (V, Const, T, Obj, Each, Seq, Dct, Fn, Bound, Cls, Mod, Ext, ExtBound, Prim, SuperV,
                   NONE, TRUE, FALSE, num, short)
from .prog import ClassInfo, AnalysisBroken


class Budget(Exception):
    """exploration bound hit: the configuration is undecided"""


class PyRaise(Exception):
    def __init__(self, exc, cname, node=None, where=None):
        self.exc, self.cname, self.node, self.where = exc, cname, node, where


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


BUILTIN_EXC = {
    'ValueError': ['Exception'], 'TypeError': ['Exception'], 'KeyError': ['LookupError', 'Exception'],
    'IndexError': ['LookupError', 'Exception'], 'LookupError': ['Exception'], 'AttributeError': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'], 'RuntimeError': ['Exception'],
    'AssertionError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
    'ArithmeticError': ['Exception'], 'Exception': ['BaseException'], 'StopIteration': ['Exception'],
    'NameError': ['Exception'], 'ImportError': ['Exception'], 'ModuleNotFoundError': ['ImportError', 'Exception'],
    'OSError': ['Exception'], 'SyntaxError': ['Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
}

STR_METHODS = {'startswith', 'endswith', 'split', 'join', 'replace', 'strip', 'lstrip', 'rstrip', 'upper', 'lower',
               'find', 'rfind', 'index', 'count', 'isdigit', 'zfill', 'isalpha', 'title', 'isidentifier',
               'partition', 'rpartition', 'splitlines', 'isspace', 'isalnum', 'isupper', 'islower', 'capitalize'}

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.Pow: '**', ast.FloorDiv: '//',
          ast.BitXor: '^', ast.BitOr: '|', ast.BitAnd: '&', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '%': '__mod__', '**': '__pow__',
          '//': '__floordiv__', '^': '__xor__', '|': '__or__', '&': '__and__', '<<': '__lshift__',
          '>>': '__rshift__', '@': '__matmul__'}
RDUNDER = {k: '__r' + v[2:] for k, v in DUNDER.items()}
CMPD = {'<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}
CMPREFL = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


class Frame:
    __slots__ = ('vars', 'parent', 'module', 'cls', 'qual', 'globals_', 'nonlocals', 'node', 'is_class', 'locals_', 'yields', 'self_')

    def __init__(self, module, parent=None, cls=None, qual='<module>', node=None):
        self.vars, self.parent, self.module, self.cls, self.qual = {}, parent, module, cls, qual
        self.globals_, self.nonlocals = set(), set()
        self.node = node
        self.locals_ = None
        self.yields = None
        self.self_ = None


class Trace:
    def __init__(self, kind, value, m, exc=None, node=None):
        self.kind, self.value, self.exc, self.node = kind, value, exc, node
        self.facts = m.factlog
        self.log = m.log
        self.m = m
        self.where = node.where if node is not None else m.lastret

    def __repr__(self):
        return '<%s %s | %s>' % (self.kind, short(self.value) if self.kind == 'return' else self.exc,
                                 '; '.join('%s=%s' % (short(f[0], 60), f[1]) for f in self.facts[:12]))


class Hooks:
    """override points for a check; every method may return None for 'default behaviour'"""
    ext_pure = True

    def call(self, m, f, args, kwargs, node):
        return None

    def ext(self, m, name, args, kwargs, node):
        return None

    def extmethod(self, m, obj, name, args, kwargs, node):
        return None

    def getattr(self, m, obj, name, node):
        return None

    def field(self, m, obj, name, node):
        return None

    def binop(self, m, op, l, r, node):
        return None

    def unop(self, m, op, v, node):
        return None

    def compare(self, m, op, l, r, node):
        return None

    def branch(self, m, cond, node):
        return None

    def keyeq(self, m, a, b):
        """equality of two dictionary keys, or None"""
        return None

    def instance(self, m, v, cls):
        return None

    def getitem(self, m, v, idx, node):
        return None

    def setitem(self, m, o, i, v, node):
        return None

    def iterate(self, m, v, node):
        return None

    def const(self, m, module, name):
        return None

    def distinct(self, m, l, r):
        """two values with different keys: certainly different?"""
        return None

    def effect(self, m, kind, target, name, value, node):
        return None


_assigned_cache = {}


def assigned_names(nodes):
    key = tuple(id(n) for n in nodes)
    r = _assigned_cache.get(key)
    if r is not None:
        return r[0]
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def w(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            w(c)
    for n in nodes:
        w(n)
    _assigned_cache[key] = (out, nodes)
    return out


_fn_locals = {}


def fn_locals(node):
    r = _fn_locals.get(id(node))
    if r is None:
        if isinstance(node, ast.Lambda):
            names = set()
            body = []
        else:
            body = node.body
            names = set(assigned_names(body))
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            names.add(x.arg)
        gl, nl = set(), set()
        isgen = False
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Global):
                gl |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                nl |= set(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                isgen = True
            stack += list(ast.iter_child_nodes(n))
        r = (names - gl - nl, gl, nl, isgen, node)
        _fn_locals[id(node)] = r
    return r


class Machine:
    """one abstract trace"""

    def __init__(self, interp, prefix):
        self.I = interp
        self.epoch = interp.stats['runs']
        self.prog = interp.prog
        self.hooks = interp.hooks
        self.prefix = list(prefix)
        self.choices = []
        self.facts = {}
        self.typefacts = {}
        self.factlog = []
        self.log = []
        self.stack = []
        self.globals = {}
        self.classattrs = {}
        self.counter = {}
        self.loopdepth = 0
        self.steps = 0
        self.notes = {}
        self.excstack = []
        self.lastret = '?'

    # ---- bookkeeping ----------------------------------------------------
    def choose(self, label, n=2):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if i >= self.I.max_choices:
            raise Budget('too many branch decisions')
        self.choices.append((c, n))
        return c

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        # objects made by different runs of one interpreter never share a name
        e = self.epoch
        if e > 1:
            return '%s#%d.%d' % (base, e, n)
        return '%s#%d' % (base, n) if n else base

    def where(self, node=None):
        f = self.stack[-1] if self.stack else None
        if f is None:
            return '?'
        return '%s:%d (%s)' % (f.module.rel, getattr(node, 'lineno', 0) or 0, f.qual)

    def note(self, kind, node, *data):
        self.log.append((kind, self.where(node)) + data)

    # ---- truth ----------------------------------------------------------
    def canon(self, v):
        """(positive condition, polarity)"""
        pol = True
        while True:
            if isinstance(v, T) and v.op == 'not':
                v, pol = v.args[0], not pol
            elif isinstance(v, T) and v.op == '!=':
                v, pol = T('==', *v.args), not pol
            elif isinstance(v, T) and v.op == 'is not':
                v, pol = T('is', *v.args), not pol
            elif isinstance(v, T) and v.op == 'not in':
                v, pol = T('in', *v.args), not pol
            elif isinstance(v, T) and v.op == '>':
                v = T('<', v.args[1], v.args[0])
            elif isinstance(v, T) and v.op == '>=':
                v, pol = T('<', v.args[0], v.args[1]), not pol
            elif isinstance(v, T) and v.op == '<=':
                v, pol = T('<', v.args[1], v.args[0]), not pol
            else:
                break
        if isinstance(v, T) and v.op in ('==', 'is') and len(v.args) == 2:
            a, b = v.args
            if repr(a.key()) > repr(b.key()):
                v = T(v.op, b, a)
        return v, pol

    def truth(self, v, node=None):
        """decide (or fork on) the truth value of v -> bool"""
        r = self.static_truth(v, node)
        if r is not None:
            return r
        c, pol = self.canon(v)
        r = self.static_truth(c, node)
        if r is not None:
            return r == pol
        h = self.hooks.branch(self, c, node)
        if h is not None:
            return h == pol
        val = self.query(c)
        if val is None:
            val = self.choose('branch') == 0
            self.assume(c, val, node)
        return val == pol

    def query(self, c):
        k = c.key()
        if k in self.facts:
            return self.facts[k]
        if isinstance(c, T) and c.op in ('==', 'is') and len(c.args) == 2:
            a, b = c.args
            if a.key() == b.key() and c.op == 'is':
                return True
            if a.key() == b.key() and c.op == '==':
                return True
            for x, cst in ((a, b), (b, a)):
                if isinstance(cst, Const):
                    other = self.facts.get(('eqc', x.key()))
                    if other is not None:
                        return other == cst.key()
        elif not (isinstance(c, T) and c.op in ('<', 'in', 'isinstance')):
            other = self.facts.get(('eqc', k))
            if other is not None:
                return bool(other[-1]) if other[0] in ('c', 'n') else None
        if isinstance(c, T) and c.op == '<' and len(c.args) == 2:
            rev = T('<', c.args[1], c.args[0])
            if self.facts.get(rev.key()) is True:
                return False
        return None

    def assume(self, c, val, node=None):
        self.facts[c.key()] = val
        self.factlog.append((c, val))
        if isinstance(c, T) and c.op in ('==', 'is') and val and len(c.args) == 2:
            a, b = c.args
            if isinstance(b, Const):
                self.facts[('eqc', a.key())] = b.key()
            elif isinstance(a, Const):
                self.facts[('eqc', b.key())] = a.key()

    def static_truth(self, v, node=None):
        if isinstance(v, Const):
            try:
                return bool(v.v)
            except Exception:
                return None
        if isinstance(v, Seq):
            if v.concrete():
                return bool(v.items)
            if any(not isinstance(i, Each) for i in v.items):
                return True
            return None
        if isinstance(v, Dct):
            if v.open is None and not any(len(i) > 2 and i[2] for i in v.items):
                return bool(v.items)
            if any(not (len(i) > 2 and i[2]) for i in v.items):
                return True
            return None
        if isinstance(v, (Fn, Bound, Cls, Mod, Ext, ExtBound, Prim)):
            return True
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassInfo):
                b = v.cls.lookup('__bool__')
                if b:
                    return self.static_truth(self.call_method(v, '__bool__', [], {}, node))
                if v.cls.lookup('__len__') is None and not real_ext(v.cls):
                    return True
            return None
        if isinstance(v, T):
            if v.op == 'concat':
                if any(isinstance(a, Const) and a.v for a in v.args):
                    return True
        return None

    # ---- types ----------------------------------------------------------
    def cls_name(self, c):
        if isinstance(c, Cls):
            return c.ci
        if isinstance(c, Ext):
            return c.name
        return None

    def isinstance_(self, v, c, node=None):
        if isinstance(c, Seq):
            if any(self.isinstance_(v, x, node) for x in c.items):
                return True
            return False
        if isinstance(c, Ext) and c.name.startswith('typing.'):
            pass
        h = self.hooks.instance(self, v, c)
        if h is not None:
            return h
        name = self.cls_name(c)
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassInfo):
                if isinstance(name, ClassInfo):
                    if name in v.cls.mro():
                        return True
                    return False if v.exact else self.typefork(v, c, name)
                if name == 'builtins.object':
                    return True
                ext = v.cls.ext_bases()
                if name in ext:
                    return True
                if not real_ext(v.cls):
                    return False
                return self.typefork(v, c, name)
            if isinstance(name, ClassInfo):
                return False if v.exact else self.typefork(v, c, name)
            return v.cls == name or self.typefork(v, c, name)
        if isinstance(v, Const):
            if isinstance(name, ClassInfo):
                return False
            short = name.split('.')[-1] if name else ''
            x = v.v
            if v.sym and num(x):
                return short in ('Expr', 'Basic', 'Number', 'Rational', 'Atom', 'object', 'AtomicExpr') or (
                    short == 'Integer' and isinstance(x, int))
            if isinstance(x, bool):
                return short in ('bool', 'int', 'object', 'Integral', 'Number')
            if isinstance(x, int):
                return short in ('int', 'object', 'Integral', 'Real') or name == 'numbers.Number' or short == 'Number' and not name.startswith('sympy')
            if isinstance(x, str):
                return short in ('str', 'object')
            if isinstance(x, float):
                return short in ('float', 'object', 'Number')
            if isinstance(x, tuple):
                return short in ('tuple', 'object')
            return short == 'object' or short == type(x).__name__
        if isinstance(v, Seq):
            if isinstance(name, ClassInfo):
                return False
            short = name.split('.')[-1] if name else ''
            if v.kind == 'gen':
                return short in ('object', 'Iterable', 'Iterator', 'Generator')
            return short in (v.kind, 'object', 'Iterable', 'Collection') or (
                v.kind in ('list', 'tuple') and short in ('Sequence',)) or (v.kind == 'list' and short == 'MutableSequence')
        if isinstance(v, Dct):
            if isinstance(name, ClassInfo):
                return False
            short = name.split('.')[-1] if name else ''
            return short in ('dict', 'object', 'Mapping', 'MutableMapping', 'Iterable', 'OrderedDict', 'Collection')
        if isinstance(v, (Fn, Bound, Prim)):
            short = name.split('.')[-1] if isinstance(name, str) else ''
            return short in ('FunctionType', 'Callable', 'object', 'MethodType', 'LambdaType')
        if isinstance(v, Ext) and v.name.startswith('sympy.') and v.name.split('.')[-1].islower():
            if isinstance(name, ClassInfo):
                return False
            if name.startswith('builtins.') and name.split('.')[-1] in ('list', 'tuple', 'dict', 'set', 'str', 'int', 'float'):
                return False      # a function of sympy
        if isinstance(v, (Cls,)):
            short = name.split('.')[-1] if isinstance(name, str) else ''
            return short in ('type', 'object')
        if isinstance(v, T) and v.typ is not None:
            t = v.typ
            if isinstance(t, ClassInfo):
                if isinstance(name, ClassInfo):
                    return name in t.mro()
                return name in t.ext_bases() or name == 'builtins.object'
            if isinstance(name, ClassInfo):
                return False
            ts, ns = t.split('.')[-1], name.split('.')[-1]
            if ts == ns or ns == 'object':
                return True
            if t.startswith('sympy') and ts == 'Symbol':
                return ns in ('Expr', 'Basic', 'Atom', 'AtomicExpr', 'Boolean') and name.startswith('sympy')
            if t.startswith('sympy') and ts == 'Expr':
                if ns in ('Basic',):
                    return True
                if ns in ('str', 'list', 'tuple', 'dict', 'int', 'float', 'bool', 'complex', 'Matrix', 'MatrixBase', 'FunctionType', 'Number') and not name.startswith('sympy'):
                    return False
                if ns in ('Matrix', 'MatrixBase', 'ImmutableMatrix'):
                    return False
                return self.typefork(v, c, name)
            if t.startswith('builtins') and name.startswith('builtins'):
                return (ts, ns) == ('bool', 'int')
            if t.startswith('builtins') and ns in ('Expr', 'Basic', 'Symbol', 'Mul', 'Add', 'Pow', 'MatrixBase', 'Matrix', 'Function', 'FunctionType', 'ImmutableDenseMatrix'):
                return False
            if ts == 'Matrix':
                if ns in ('MatrixBase', 'DenseMatrix', 'MutableDenseMatrix', 'MatrixCommon'):
                    return True
                return False
            return self.typefork(v, c, name)
        return self.typefork(v, c, name)

    def typefork(self, v, c, name):
        """unknown value: partition on its class, consistently with earlier tests"""
        k = v.key()
        pos, neg = self.typefacts.setdefault(k, ([], []))
        for p in pos:
            if p == name:
                return True
            if isinstance(p, ClassInfo):
                if isinstance(name, ClassInfo):
                    if name in p.mro():
                        return True
                    if p not in name.mro():
                        return False
                elif name not in p.ext_bases():
                    return False
            elif isinstance(name, ClassInfo):
                return False
            else:
                rel = ext_related(p, name)
                if rel is not None:
                    return rel
        for n in neg:
            if n == name:
                return False
            if isinstance(n, ClassInfo) and isinstance(name, ClassInfo) and n in name.mro():
                return False
            if isinstance(n, str) and isinstance(name, str) and ext_related(name, n) is True:
                return False
        val = self.choose('isinstance') == 0
        (pos if val else neg).append(name)
        self.factlog.append((T('isinstance', v, c), val))
        return val

    # ---- names ----------------------------------------------------------
    def lookup(self, name, frame, node=None):
        f = frame
        while f is not None:
            if name in f.vars and name not in f.globals_:
                v = f.vars[name]
                return v
            if f is frame and f.locals_ is not None and name in f.locals_:
                self.note('unbound', node, name)
                raise PyRaise(Const('unbound local ' + name), 'UnboundLocalError', node, self.where(node))
            f = f.parent
            while f is not None and f.node is not None and isinstance(f.node, ast.ClassDef):
                f = f.parent
        return self.module_name(frame.module, name, node)

    def module_name(self, module, name, node=None):
        gk = (module.name, name)
        if gk in self.globals:
            return self.globals[gk]
        h = self.hooks.const(self, module, name)
        if h is not None:
            return h
        r = self.prog.resolve_name(module, name)
        if r is None:
            import builtins
            if hasattr(builtins, name) or name in ('__file__', '__name__', '__doc__'):
                if name in ('True', 'False', 'None'):
                    return Const({'True': True, 'False': False, 'None': None}[name])
                return Ext('builtins.' + name)
            self.note('undefined', node, name)
            raise PyRaise(Const('name %s is not defined' % name), 'NameError', node, self.where(node))
        return self.from_resolved(r, name)

    def from_resolved(self, r, name):
        if isinstance(r, ClassInfo):
            return Cls(r)
        if isinstance(r, str):
            return self.ext_value(r)
        if r[0] == 'module':
            return Mod(r[1])
        if r[0] == 'func':
            return self.decorated(Fn(r[2], r[1], qual=r[2].name), r[2], None)
        if r[0] == 'assign':
            key = (r[1].name, 'assign', id(r[2]))
            if key in self.globals:
                return self.globals[key]
            self.globals[key] = T('global', r[1].name + '.' + name)
            fr = Frame(r[1])
            self.stack.append(fr)
            saved = self.loopdepth
            self.loopdepth = 0
            try:
                v = self.eval(r[2], fr)
            except (PyRaise, Budget):
                v = T('global', r[1].name + '.' + name)
            finally:
                self.stack.pop()
                self.loopdepth = saved
            if isinstance(v, Obj) and v.name.startswith('new:'):
                v.name = r[1].name + '.' + name
            self.globals[key] = v
            return v
        return T('global', r[1].name + '.' + name)

    def ext_value(self, dotted):
        if dotted in ('sympy.S', 'sympy.core.S'):
            return Ext('sympy.S')
        return Ext(dotted)

    def decorated(self, fn, node, cls):
        for d in reversed(node.decorator_list):
            name = deco_name(d)
            if name in ('contextmanager', 'wraps', 'lru_cache', 'cache', 'abstractmethod', 'staticmethod',
                        'classmethod', 'property', 'cached_property', 'overload', 'cached_property'):
                continue
            fr = Frame(fn.module)
            dv = self.eval(d, fr)
            r = self.call(dv, [fn], {}, node)
            if isinstance(r, (Fn, Bound, Prim, ExtBound)):
                fn = r
        return fn

    # ---- running --------------------------------------------------------
    def exec_body(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.I.max_steps:
            raise Budget('step bound')
        getattr(self, 'x_' + type(st).__name__, self.x_default)(st, fr)

    def x_default(self, st, fr):
        self.note('unsupported-stmt', st, type(st).__name__)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def x_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else NONE
        self.lastret = self.where(st)
        raise Ret(v)

    def x_Break(self, st, fr):
        raise Brk()

    def x_Continue(self, st, fr):
        raise Cont()

    def x_Raise(self, st, fr):
        if st.exc is None:
            if self.excstack:
                raise self.excstack[-1]
            raise PyRaise(T('reraise'), 'Exception', st, self.where(st))
        v = self.eval(st.exc, fr)
        cn = 'Exception'
        if isinstance(v, Ext):
            cn = v.name.split('.')[-1]
        elif isinstance(v, Cls):
            cn = v.ci.name
        elif isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], Ext):
            cn = v.args[0].name.split('.')[-1]
        elif isinstance(v, Obj):
            cn = v.cname()
        if st.cause is not None:
            self.eval(st.cause, fr)
        raise PyRaise(v, cn, st, self.where(st))

    def x_Assert(self, st, fr):
        c = self.eval(st.test, fr)
        if not self.truth(c, st):
            raise PyRaise(Const('assert'), 'AssertionError', st, self.where(st))

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr, st)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr, st)

    def x_AugAssign(self, st, fr):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr, t)
            v = self.inplace(op, cur, self.eval(st.value, fr), st)
            self.assign(t, v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr, t)
            v = self.inplace(op, cur, self.eval(st.value, fr), st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            cur = self.getitem(o, i, t)
            v = self.inplace(op, cur, self.eval(st.value, fr), st)
            self.setitem(o, i, v, st)

    def inplace(self, op, cur, v, node):
        if isinstance(cur, Seq) and op == '+' and cur.kind == 'list':
            self.effect('seq-extend', cur, '+=', v, node)
            for i in self.iter_items(v, node):
                self.seq_append(cur, i)
            return cur
        return self.binop(op, cur, v, node, inplace=True)

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval(t.slice, fr)
                self.effect('delitem', o, i, None, st)
                if isinstance(o, Seq) and isinstance(i, Const) and isinstance(i.v, int) and o.concrete() and -len(o.items) <= i.v < len(o.items):
                    del o.items[i.v]
                elif isinstance(o, Dct):
                    o.items = [it for it in o.items if it[0] != i]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                self.effect('delattr', o, t.attr, None, st)
                if isinstance(o, Obj):
                    o.fields.pop(t.attr, None)

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr), st):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def x_FunctionDef(self, st, fr):
        fn = Fn(st, fr.module, cls=fr.cls, closure=fr, qual=fr.qual + '.' + st.name)
        fn.defaults = self.eval_defaults(st.args, fr)
        v = self.decorated(fn, st, None)
        fr.vars[st.name] = v

    def x_ClassDef(self, st, fr):
        ci = ClassInfo(st.name, fr.module, st, self.prog, outer=fr.qual)
        ci.closure = fr
        fr.vars[st.name] = Cls(ci)

    def x_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                fr.vars[a.asname] = Mod(a.name) if a.name in self.prog.modules else Ext(a.name)
            else:
                n = a.name.split('.')[0]
                fr.vars[n] = Mod(n) if n in self.prog.modules else Ext(n)

    def x_ImportFrom(self, st, fr):
        mod = self.prog._from_module(fr.module, st)
        for a in st.names:
            if mod in self.prog.modules:
                r = self.prog.resolve_name(self.prog.modules[mod], a.name)
                if r is None and mod + '.' + a.name in self.prog.modules:
                    v = Mod(mod + '.' + a.name)
                elif r is None:
                    self.note('undefined', st, a.name)
                    raise PyRaise(Const('cannot import ' + a.name), 'ImportError', st, self.where(st))
                else:
                    v = self.module_name(self.prog.modules[mod], a.name, st)
            else:
                v = self.ext_value('%s.%s' % (mod, a.name))
            fr.vars[a.asname or a.name] = v

    def x_With(self, st, fr):
        self._with(st, 0, fr)

    def _with(self, st, i, fr):
        if i == len(st.items):
            self.exec_body(st.body, fr)
            return
        it = st.items[i]
        # @contextmanager function of the repository: inline around the body
        ce = it.context_expr
        if isinstance(ce, ast.Call):
            f = self.eval(ce.func, fr)
            fn = f.fn if isinstance(f, Bound) else f
            if isinstance(fn, Fn) and any(deco_name(d) == 'contextmanager' for d in fn.node.decorator_list):
                args, kwargs = self.eval_args(ce, fr)
                if isinstance(f, Bound):
                    args = [f.self_] + args
                self.run_ctxmgr(fn, args, kwargs, it, lambda: self._with(st, i + 1, fr), fr, st)
                return
            args, kwargs = self.eval_args(ce, fr)
            cm = self.call(f, args, kwargs, ce)
        else:
            cm = self.eval(ce, fr)
        v = cm
        repo = isinstance(cm, Obj) and isinstance(cm.cls, ClassInfo) and cm.cls.lookup('__enter__')
        if repo:
            v = self.call_method(cm, '__enter__', [], {}, st)
        else:
            self.note('with-enter', st, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr, st)
        try:
            self._with(st, i + 1, fr)
        except (PyRaise, Ret, Brk, Cont):
            if repo:
                self.call_method(cm, '__exit__', [NONE, NONE, NONE], {}, st)
            else:
                self.note('with-exit', st, cm)
            raise
        if repo:
            self.call_method(cm, '__exit__', [NONE, NONE, NONE], {}, st)
        else:
            self.note('with-exit', st, cm)

    def run_ctxmgr(self, fn, args, kwargs, it, body, fr, st):
        def on_yield(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st)
            top = self.stack.pop()
            try:
                body()
            except Ret as r:
                self.stack.append(top)
                raise _CtxRet(r)
            self.stack.append(top)
        try:
            self.call_fn(fn, args, kwargs, st, on_yield=on_yield)
        except _CtxRet as c:
            raise c.r

    def x_Try(self, st, fr):
        depth = len(self.stack)
        try:
            try:
                self.hook_try(st, fr)
                self.exec_body(st.body, fr)
            except PyRaise as e:
                del self.stack[depth:]
                for h in st.handlers:
                    if self.exc_match(e, h, fr):
                        if h.name:
                            fr.vars[h.name] = e.exc
                        self.excstack.append(e)
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            self.excstack.pop()
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, fr)
        except (Budget, Infeasible):
            raise
        except BaseException:
            if st.finalbody:
                self.exec_body(st.finalbody, fr)
            raise
        else:
            self.exec_body(st.finalbody, fr)

    def hook_try(self, st, fr):
        """the body of a try may raise what its handlers name: one extra trace per handler"""
        if not self.I.fork_try or not st.handlers:
            return
        n = len(st.handlers)
        c = self.choose('try', n + 1)
        if c:
            h = st.handlers[c - 1]
            cn = 'Exception'
            if h.type is not None:
                t = h.type.elts[0] if isinstance(h.type, ast.Tuple) else h.type
                v = self.eval(t, fr)
                cn = v.name.split('.')[-1] if isinstance(v, Ext) else (v.ci.name if isinstance(v, Cls) else 'Exception')
            self.factlog.append((T('try-raises', Const(cn), Const(st.lineno)), True))
            raise PyRaise(T('exc', Const(cn)), cn, st, self.where(st))

    def exc_match(self, e, h, fr):
        if h.type is None:
            return True
        tv = self.eval(h.type, fr)
        ts = tv.items if isinstance(tv, Seq) else [tv]
        names = [e.cname] + BUILTIN_EXC.get(e.cname, [])
        more = []
        for n in names:
            more += BUILTIN_EXC.get(n, [])
        names = set(names + more + ['BaseException'])
        for t in ts:
            n = t.name.split('.')[-1] if isinstance(t, Ext) else (t.ci.name if isinstance(t, Cls) else None)
            if n in names or n is None:
                return True
            if n == 'Exception' and e.cname not in ('KeyboardInterrupt', 'SystemExit', 'BaseException'):
                return True
        return False

    # ---- loops ----------------------------------------------------------
    def x_For(self, st, fr):
        itv = self.eval(st.iter, fr)
        items = self.iter_items(itv, st)
        broke = False
        for it in list(items):
            gen = isinstance(it, Each)
            try:
                if gen:
                    self.generic(st, fr, lambda: (self.assign(st.target, it.v, fr, st), self.exec_body(st.body, fr)))
                else:
                    self.assign(st.target, it, fr, st)
                    self.exec_body(st.body, fr)
            except Cont:
                continue
            except Brk:
                broke = True
                break
        if not broke:
            self.exec_body(st.orelse, fr)

    def x_While(self, st, fr):
        n = 0
        while True:
            c = self.eval(st.test, fr)
            s = self.static_truth(c, st)
            if s is None:
                # unknown condition: one representative iteration, then exit
                def body():
                    c2 = self.eval(st.test, fr)
                    # inside the representative iteration the condition holds
                    cc, pol = self.canon(c2)
                    if self.static_truth(cc) is None and self.query(cc) is None and self.hooks.branch(self, cc, st) is None:
                        self.assume(cc, pol, st)
                    self.exec_body(st.body, fr)
                if self.I.zero_iter and self.choose('while') == 1:
                    break
                try:
                    self.generic(st, fr, body)
                except Cont:
                    pass
                except Brk:
                    return
                break
            if not s:
                break
            n += 1
            if n > 60:
                raise Budget('while bound')
            try:
                self.exec_body(st.body, fr)
            except Cont:
                continue
            except Brk:
                return
        self.exec_body(st.orelse, fr)

    def generic(self, st, fr, run):
        """one representative iteration of a loop of unknown length"""
        names = [n for n in assigned_names(st.body) if n in fr.vars]
        tg = set(assigned_names([st])) - set(assigned_names(st.body)) if isinstance(st, ast.For) else set()
        lid = 'L%d' % st.lineno
        inits = {}
        for n in names:
            if n in tg:
                continue
            v = fr.vars[n]
            if isinstance(v, (Const, T)):
                inits[n] = v
                fr.vars[n] = T('phi', lid, n, v, typ=getattr(v, 'typ', None))
        self.loopdepth += 1
        exc = None
        try:
            try:
                run()
            except (Cont, Brk) as e:
                exc = e
        finally:
            self.loopdepth -= 1
        for n, init in inits.items():
            if n in fr.vars:
                fr.vars[n] = self.summarise(init, T('phi', lid, n, init), fr.vars[n])
        if exc is not None:
            raise exc

    def summarise(self, init, phi, val):
        pk = phi.key()
        if val.key() == pk:
            return init
        if not contains(val, pk):
            return val
        if isinstance(val, T) and len(val.args) == 2 and val.op in ('+', '-', '*', 'concat'):
            a, b = val.args
            if a.key() == pk and not contains(b, pk):
                if val.op in '+-':
                    return self.simple_add(val.op, init, T('sum', b))
                if val.op == '*':
                    return T('*', init, T('prod', b))
            if b.key() == pk and not contains(a, pk):
                if val.op == '+':
                    return self.simple_add('+', init, T('sum', a))
                if val.op == '*':
                    return T('*', T('rprod', a), init)
        if isinstance(val, T) and val.op in ('+', '-'):
            # phi buried in a sum: pull the remaining summands out
            terms = flat_sum(val)
            ph = [t for t in terms if t[1].key() == pk]
            rest = [t for t in terms if t[1].key() != pk]
            if len(ph) == 1 and ph[0][0] > 0 and not any(contains(t[1], pk) for t in rest):
                out = init
                for s, t in rest:
                    out = self.simple_add('+' if s > 0 else '-', out, T('sum', t))
                return out
        if isinstance(val, T) and val.op == 'concat' and val.args[0].key() == pk and not any(contains(x, pk) for x in val.args[1:]):
            return concat([init, T('repeat', concat(list(val.args[1:])))])
        if isinstance(val, T) and val.op == 'concat' and val.args[-1].key() == pk and not any(contains(x, pk) for x in val.args[:-1]):
            return concat([T('repeat', concat(list(val.args[:-1]))), init])
        return T('loop', init, val)

    def simple_add(self, op, a, b):
        if op == '+' and isinstance(a, Const) and num(a.v) and a.v == 0:
            return b
        return T(op, a, b)

    def iter_items(self, v, node):
        h = self.hooks.iterate(self, v, node)
        if h is not None:
            return h
        if isinstance(v, Seq):
            return list(v.items)
        if isinstance(v, Dct):
            out = [Each(i[0]) if len(i) > 2 and i[2] else i[0] for i in v.items]
            if v.open is not None:
                out.append(Each(T('key', v.open)))
            return out
        if isinstance(v, Const):
            if isinstance(v.v, (str, tuple)):
                return [x if isinstance(x, V) else Const(x) for x in v.v]
            raise PyRaise(Const('not iterable'), 'TypeError', node, self.where(node))
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassInfo) and v.cls.lookup('__iter__'):
                return self.iter_items(self.call_method(v, '__iter__', [], {}, node), node)
            return [Each(T('elem', v))]
        return [Each(T('elem', v))]

    def seq_append(self, s, v):
        if s.kind == 'set' and (v in s.items or Each(v) in s.items):
            return
        if isinstance(v, Each) or self.loopdepth <= s.depth:
            s.items.append(v)
        else:
            s.items.append(Each(v))

    # ---- assignment -----------------------------------------------------
    def assign(self, t, v, fr, node):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.effect('global', None, fr.module.name + '.' + t.id, v, node)
                self.globals[(fr.module.name, t.id)] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        return
                    f = f.parent
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, node)

    def unpack(self, t, v, fr, node):
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, (Seq, Dct, Const)) and not (isinstance(v, Const) and not isinstance(v.v, (str, tuple))):
            items = self.iter_items(v, node)
            if not any(isinstance(i, Each) for i in items):
                if star is None:
                    if len(items) != n:
                        raise PyRaise(Const('unpack'), 'ValueError', node, self.where(node))
                    for e, x in zip(t.elts, items):
                        self.assign(e, x, fr, node)
                    return
                pre = t.elts[:star]
                post = t.elts[star + 1:]
                if len(items) < len(pre) + len(post):
                    raise PyRaise(Const('unpack'), 'ValueError', node, self.where(node))
                for e, x in zip(pre, items):
                    self.assign(e, x, fr, node)
                mid = items[len(pre):len(items) - len(post)]
                self.assign(t.elts[star], Seq('list', mid, self.loopdepth), fr, node)
                for e, x in zip(post, items[len(items) - len(post):] if post else []):
                    self.assign(e, x, fr, node)
                return
        for i, e in enumerate(t.elts):
            if isinstance(e, ast.Starred):
                self.assign(e, Seq('list', [Each(T('elem', v))], self.loopdepth), fr, node)
            else:
                self.assign(e, self.getitem(v, Const(i), node), fr, node)

    def effect(self, kind, target, name, value, node):
        self.hooks.effect(self, kind, target, name, value, node)

    def setattr(self, o, name, v, node):
        self.effect('setattr', o, name, v, node)
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassInfo):
                st = o.cls.lookup(name + '$set')
                if st:
                    self.call_fn(Fn(st[1], st[0].module, cls=st[0], qual=st[0].qual + '.' + name), [o, v], {}, node)
                    return
            o.fields[name] = v
        elif isinstance(o, Cls):
            self.classattrs[(o.ci.fq, name)] = v
        elif isinstance(o, Mod):
            self.globals[(o.name, name)] = v
        elif isinstance(o, Ext):
            self.globals[('ext', o.name + '.' + name)] = v

    def setitem(self, o, i, v, node):
        self.effect('setitem', o, i, v, node)
        if self.hooks.setitem(self, o, i, v, node):
            return
        if isinstance(o, Dct):
            if self.loopdepth <= o.depth:
                for it in o.items:
                    if it[0] == i:
                        it[1] = v
                        return
                o.items.append([i, v])
            else:
                for it in o.items:
                    if it[0] == i and not (len(it) > 2 and it[2]) and isinstance(i, Const):
                        it[1] = v
                        return
                for it in o.items:
                    if it[0] == i and len(it) > 2:
                        it[1] = v
                        return
                o.items.append([i, v, not isinstance(i, Const)])
        elif isinstance(o, Seq):
            if isinstance(i, Const) and isinstance(i.v, int) and not isinstance(i.v, bool) and o.concrete() and -len(o.items) <= i.v < len(o.items):
                o.items[i.v] = v
            else:
                o.items = [x if isinstance(x, Each) else Each(x) for x in o.items] + [Each(v)]
        elif isinstance(o, Obj) and isinstance(o.cls, ClassInfo) and o.cls.lookup('__setitem__'):
            self.call_method(o, '__setitem__', [i, v], {}, node)

    # ---- expressions ----------------------------------------------------
    def eval(self, e, fr):
        self.steps += 1
        if self.steps > self.I.max_steps:
            raise Budget('step bound')
        return getattr(self, 'e_' + type(e).__name__)(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return T('...')
        return Const(e.value)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr, e)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, e)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else NONE
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else NONE
            stp = self.eval(e.slice.step, fr) if e.slice.step else NONE
            return self.slice(o, lo, hi, stp, e)
        return self.getitem(o, self.eval(e.slice, fr), e)

    def e_Slice(self, e, fr):
        lo = self.eval(e.lower, fr) if e.lower else NONE
        hi = self.eval(e.upper, fr) if e.upper else NONE
        stp = self.eval(e.step, fr) if e.step else NONE
        return T('slice', lo, hi, stp)

    def slice(self, o, lo, hi, stp, node):
        h = self.hooks.getitem(self, o, T('slice', lo, hi, stp), node)
        if h is not None:
            return h
        if all(isinstance(x, Const) for x in (lo, hi, stp)):
            sl = slice(lo.v, hi.v, stp.v)
            if isinstance(o, Const) and isinstance(o.v, (str, tuple)):
                return Const(o.v[sl])
            if isinstance(o, Seq):
                if o.concrete():
                    return Seq(o.kind, o.items[sl], self.loopdepth)
                return Seq(o.kind, [x if isinstance(x, Each) else Each(x) for x in o.items], self.loopdepth)
        elif isinstance(o, Seq):
            return Seq(o.kind, [x if isinstance(x, Each) else Each(x) for x in o.items], self.loopdepth)
        return T('slice', o, lo, hi, stp, typ=getattr(o, 'typ', None))

    def e_Tuple(self, e, fr):
        return Seq('tuple', self.elts(e.elts, fr), self.loopdepth)

    def e_List(self, e, fr):
        return Seq('list', self.elts(e.elts, fr), self.loopdepth)

    def e_Set(self, e, fr):
        s = Seq('set', [], self.loopdepth)
        for v in self.elts(e.elts, fr):
            self.seq_append(s, v)
        return s

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iter_items(self.eval(x.value, fr), x)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = Dct(depth=self.loopdepth)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                if isinstance(o, Dct):
                    for it in o.items:
                        self.dict_put(d, it)
                    if o.open is not None:
                        d.open = o.open
                else:
                    d.open = o
            else:
                self.dict_put(d, [self.eval(k, fr), self.eval(v, fr)])
        return d

    def dict_put(self, d, it):
        for x in d.items:
            if x[0] == it[0]:
                x[1] = it[1]
                return
        d.items.append(list(it))

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(Const(p.value))
            else:
                parts.append(self.eval(p, fr))
        return concat(parts)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        if e.format_spec is None and e.conversion in (-1, 115):
            return self.to_str(v, e)
        return T('fmtval', v, typ='builtins.str')

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr), e):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, x)
            if isand and not t:
                return v if self.static_truth(v) is False else FALSE if is_boolish(v) else v
            if not isand and t:
                return v if not is_boolish(v) else TRUE
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            s = self.static_truth(v, e)
            if s is not None:
                return Const(not s)
            if isinstance(v, T) and v.op == 'not':
                if is_boolish(v.args[0]):
                    return v.args[0]
            return T('not', v, typ='builtins.bool')
        op = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(e.op)]
        return self.unop(op, v, e)

    def unop(self, op, v, e):
        h = self.hooks.unop(self, op, v, e)
        if h is not None:
            return h
        if isinstance(v, Const) and num(v.v):
            if op == 'neg':
                return Const(-v.v, v.sym)
            if op == 'pos':
                return v
            if op == 'inv' and isinstance(v.v, int):
                return Const(~v.v)
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo):
            d = {'neg': '__neg__', 'pos': '__pos__', 'inv': '__invert__'}[op]
            if v.cls.lookup(d):
                return self.call_method(v, d, [], {}, e)
        if op == 'pos':
            return v
        if op == 'neg' and isinstance(v, T) and v.op == 'neg':
            return v.args[0]
        return T(op, v, typ=getattr(v, 'typ', None))

    def e_BinOp(self, e, fr):
        l = self.eval(e.left, fr)
        r = self.eval(e.right, fr)
        return self.binop(BINOPS[type(e.op)], l, r, e)

    def binop(self, op, l, r, node, inplace=False):
        h = self.hooks.binop(self, op, l, r, node)
        if h is not None:
            return h
        lt = self.repo_cls(l)
        rt = self.repo_cls(r)
        if lt is not None or rt is not None:
            if lt is not None:
                if lt.lookup(DUNDER[op]):
                    v = self.call_method(l, DUNDER[op], [r], {}, node)
                    if not is_notimpl(v):
                        return v
            if rt is not None and rt is not lt or (rt is not None and lt is None):
                if rt.lookup(RDUNDER[op]):
                    v = self.call_method(r, RDUNDER[op], [l], {}, node)
                    if not is_notimpl(v):
                        return v
            ext_ok = lambda c: c is None or bool(real_ext(c))
            if lt is not None and not ext_ok(lt) and (rt is None or not ext_ok(rt) or not rt.lookup(RDUNDER[op])):
                if rt is not None or isinstance(r, (Const, Seq, Dct)) or (isinstance(r, T) and r.typ is not None) or not isinstance(r, T):
                    self.note('binop-typeerror', node, op, l, r)
                    raise PyRaise(T('TypeError', l, r), 'TypeError', node, self.where(node))
            elif rt is not None and lt is None and not ext_ok(rt):
                if isinstance(l, (Const, Seq, Dct)) or (isinstance(l, T) and l.typ is not None):
                    self.note('binop-typeerror', node, op, l, r)
                    raise PyRaise(T('TypeError', l, r), 'TypeError', node, self.where(node))
            return T(op, l, r)
        if isinstance(l, Const) and isinstance(r, Const):
            c = const_binop(op, l, r)
            if c is not None:
                return c
            if op in ('/', '//', '%') and num(r.v) and r.v == 0 and num(l.v) and not l.sym and not r.sym:
                raise PyRaise(Const('division by zero'), 'ZeroDivisionError', node, self.where(node))
        if op == '+':
            if isinstance(l, Seq) and isinstance(r, Seq):
                return Seq(l.kind, l.items + r.items, self.loopdepth)
            if isinstance(l, Seq) and isinstance(r, T) and l.kind in ('list', 'tuple'):
                return Seq(l.kind, l.items + [Each(T('elem', r))], self.loopdepth)
            if isinstance(r, Seq) and isinstance(l, T) and r.kind in ('list', 'tuple'):
                return Seq(r.kind, [Each(T('elem', l))] + r.items, self.loopdepth)
            if is_strish(l) or is_strish(r):
                return concat([l, r])
            if isinstance(l, Const) and num(l.v) and l.v == 0:
                return r
            if isinstance(r, Const) and num(r.v) and r.v == 0:
                return l
        if op == '-' and isinstance(r, Const) and num(r.v) and r.v == 0:
            return l
        if op == '%' and is_strish(l):
            return self.percent(l, r, node)
        if op == '*':
            if isinstance(l, Seq) or isinstance(r, Seq):
                s, n = (l, r) if isinstance(l, Seq) else (r, l)
                if isinstance(n, Const) and isinstance(n.v, int):
                    return Seq(s.kind, s.items * max(0, n.v), self.loopdepth)
                if s.kind in ('list', 'tuple'):
                    return Seq(s.kind, [x if isinstance(x, Each) else Each(x) for x in s.items], self.loopdepth)
            if is_strish(l) or is_strish(r):
                s = l if is_strish(l) else r
                return T('repeat', s, typ='builtins.str')
            if isinstance(l, Const) and num(l.v) and l.v == 1:
                return r
            if isinstance(r, Const) and num(r.v) and r.v == 1:
                return l
        typ = None
        lt, rt = getattr(l, 'typ', None), getattr(r, 'typ', None)
        lt = ('sympy.Expr' if l.sym else 'builtins.int') if isinstance(l, Const) and num(l.v) else lt
        rt = ('sympy.Expr' if r.sym else 'builtins.int') if isinstance(r, Const) and num(r.v) else rt
        if lt == 'builtins.int' and rt == 'builtins.int' and op != '/':
            typ = 'builtins.int'
        elif 'sympy.Expr' in (lt, rt) and lt in ('sympy.Expr', 'builtins.int') and rt in ('sympy.Expr', 'builtins.int'):
            typ = 'sympy.Expr'
        return T(op, l, r, typ=typ)

    def percent(self, l, r, node):
        args = r.items if isinstance(r, Seq) and r.kind == 'tuple' else [r]
        if isinstance(l, Const):
            out, i, s = [], 0, l.v
            import re
            pos = 0
            for mt in re.finditer(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[sdrfgixX])', s):
                out.append(Const(s[pos:mt.start()]))
                pos = mt.end()
                if mt.group() == '%%':
                    out.append(Const('%'))
                    continue
                if i >= len(args):
                    raise PyRaise(Const('format'), 'TypeError', node, self.where(node))
                a = args[i]
                i += 1
                out.append(self.to_str(a.v if isinstance(a, Each) else a, node))
            out.append(Const(s[pos:]))
            if '%(' in s:
                return T('fmt', l, r, typ='builtins.str')
            return concat(out)
        return T('fmt', l, r, typ='builtins.str')

    def repo_cls(self, v):
        if isinstance(v, Obj) and isinstance(v.cls, ClassInfo):
            return v.cls
        if isinstance(v, T) and isinstance(v.typ, ClassInfo):
            return v.typ
        return None

    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c, fr)
            v = self.compare(type(op), l, r, e)
            if len(e.ops) == 1:
                return v
            if not self.truth(v, e):
                return FALSE
            res = v
            l = r
        return res

    def compare(self, opt, l, r, node):
        op = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=',
              ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[opt]
        return self.compare_op(op, l, r, node)

    def compare_op(self, op, l, r, node):
        h = self.hooks.compare(self, op, l, r, node)
        if h is not None:
            return h
        if op in ('is', 'is not'):
            v = self.same(l, r)
            if v is None:
                return T(op, l, r, typ='builtins.bool')
            return Const(v == (op == 'is'))
        if op in ('in', 'not in'):
            v = self.contains_(l, r, node)
            if isinstance(v, bool):
                return Const(v == (op == 'in'))
            return T(op, l, r, typ='builtins.bool')
        # repository __lt__ etc.
        for a, b, o in ((l, r, op), (r, l, CMPREFL[op])):
            c = self.repo_cls(a)
            if c is not None:
                d = c.lookup(CMPD[o])
                if d is None and o == '!=' and c.lookup('__eq__'):
                    v = self.call_method(a, '__eq__', [b], {}, node)
                    if not is_notimpl(v):
                        s = self.static_truth(v)
                        return Const(not s) if s is not None else T('not', v, typ='builtins.bool')
                elif d is not None:
                    v = self.call_method(a, CMPD[o], [b], {}, node)
                    if not is_notimpl(v):
                        return v
                elif o in ('<', '>', '<=', '>='):
                    pass
        if op in ('==', '!='):
            v = self.equal(l, r)
            if v is None:
                return T(op, l, r, typ='builtins.bool')
            return Const(v == (op == '=='))
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                return Const({'<': lambda: l.v < r.v, '>': lambda: l.v > r.v, '<=': lambda: l.v <= r.v,
                              '>=': lambda: l.v >= r.v}[op]())
            except TypeError:
                raise PyRaise(Const('compare'), 'TypeError', node, self.where(node))
        if isinstance(l, Seq) and isinstance(r, Seq) and l.concrete() and r.concrete():
            if all(x.kind in ('set', 'frozenset', 'keys') for x in (l, r)):
                inside = [[self.contains_(x, b, node) for x in a.items] for a, b in ((l, r), (r, l))]
                if all(v is True or v is False for c in inside for v in c):
                    a, b = all(inside[0]), all(inside[1])
                    return Const({'<=': a, '>=': b, '<': a and not b, '>': b and not a}[op])
            if l.kind == r.kind and l.kind in ('list', 'tuple') and all(isinstance(x, Const) and isinstance(x.v, int) for x in l.items + r.items):
                a, b = [x.v for x in l.items], [x.v for x in r.items]
                return Const({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
        if (self.repo_cls(l) is not None or self.repo_cls(r) is not None):
            c1, c2 = self.repo_cls(l), self.repo_cls(r)
            if all(c is None or not real_ext(c) for c in (c1, c2)) and not (isinstance(l, T) or isinstance(r, T)):
                raise PyRaise(T('TypeError', l, r), 'TypeError', node, self.where(node))
        if l.key() == r.key():
            return Const(op in ('<=', '>='))
        return T(op, l, r, typ='builtins.bool')

    def same(self, l, r):
        if l is r:
            return True
        if isinstance(l, Const) and isinstance(r, Const):
            if l.v is None or r.v is None or isinstance(l.v, bool) or isinstance(r.v, bool):
                return l.v is r.v
            return l.key() == r.key()
        if isinstance(l, T) and isinstance(r, T) and l.key() == r.key():
            return True
        for a, b in ((l, r), (r, l)):
            if isinstance(a, Const):
                if isinstance(b, (Obj, Seq, Dct, Fn, Bound, Cls, Mod, Prim, ExtBound)):
                    return False
                if isinstance(b, T) and b.typ is not None and a.v is None:
                    return False
                if isinstance(b, T) and b.op == 'concat' and a.v is None:
                    return False
                if isinstance(b, Ext) and a.v is None and b.name.split('.')[0] in ('sympy', 'builtins', 'operator', 'functools', 'copy', 'math', 'itertools', 're'):
                    return False
        if isinstance(l, Obj) and isinstance(r, Obj):
            return l.name == r.name
        if isinstance(l, (Cls, Ext, Mod, Fn)) and isinstance(r, (Cls, Ext, Mod, Fn)):
            return l.key() == r.key()
        if isinstance(l, (Seq, Dct)) or isinstance(r, (Seq, Dct)):
            return False if not (isinstance(l, T) or isinstance(r, T)) else None
        return None

    def equal(self, l, r):
        if isinstance(l, Const) and isinstance(r, Const):
            return l.key() == r.key()
        if isinstance(l, Obj) and isinstance(r, Obj):
            if l.name == r.name:
                return True
            return None
        if l.key() == r.key():
            return True
        h = self.hooks.distinct(self, l, r)
        if h is not None:
            return not h
        if isinstance(l, Seq) and isinstance(r, Seq) and all(x.kind in ('set', 'keys') for x in (l, r)):
            if not (l.concrete() and r.concrete()):
                return None
            und = False
            for a, b in ((l, r), (r, l)):
                for x in a.items:
                    es = [x.key() == y.key() or self.static_eq(x, y) for y in b.items]
                    if True in es:
                        continue
                    if any(e is None for e in es):
                        und = True
                    else:
                        return False
            return None if und else True
        if isinstance(l, Seq) and isinstance(r, Seq) and l.concrete() and r.concrete():
            if l.kind != r.kind or len(l.items) != len(r.items):
                return False
            rs = [self.static_eq(a, b) for a, b in zip(l.items, r.items)]
            if any(x is False for x in rs):
                return False
            if all(rs):
                return True
            return None
        if isinstance(l, Dct) and isinstance(r, Dct) and l.open is None and r.open is None and not any(len(i) > 2 and i[2] for i in l.items + r.items):
            und = len(l.items) != len(r.items)
            for a, b in ((l, r), (r, l)):
                for k, v in [i[:2] for i in a.items]:
                    it, dec = self.dict_find(b, k)
                    if not dec:
                        und = True
                        continue
                    e = self.static_eq(v, it[1]) if it else False
                    if e is False:
                        return False
                    und = und or e is None
            return None if und else True
        for a, b in ((l, r), (r, l)):
            if isinstance(a, Const):
                if a.v is None and (isinstance(b, (Obj, Seq, Dct, Fn, Bound, Cls)) or isinstance(b, T) and b.typ is not None):
                    return False
                if isinstance(b, (Seq, Dct, Fn, Bound, Cls, Mod)):
                    return False
                c = self.repo_cls(b) if isinstance(b, Obj) else None
                if c is not None and c.lookup('__eq__') is None and not real_ext(c):
                    return False        # identity is the only equality of such objects
                if isinstance(a.v, str) and isinstance(b, T) and b.typ is not None and b.typ != 'builtins.str':
                    return False
        if isinstance(l, (Cls, Ext)) and isinstance(r, (Cls, Ext)):
            return l.key() == r.key()
        return None

    def static_eq(self, a, b, node=None):
        e = self.equal(a, b)
        if e is None:
            e = self.hooks.keyeq(self, a, b)
        if e is None:
            c = self.hooks.compare(self, '==', a, b, node)
            if c is not None:
                e = self.static_truth(c)
        return e

    def dict_find(self, d, key, node=None):
        """(found item or None, decided)"""
        if d.open is not None or any(len(i) > 2 and i[2] for i in d.items):
            return None, False
        for it in d.items:
            e = self.static_eq(it[0], key, node)
            if e is None:
                return None, False
            if e:
                return it, True
        return None, True

    def static_veq(self, l, r, node):
        """equality as == of the language decides it (also for classes with __eq__): True, False or None"""
        e = self.static_eq(l, r)
        if e is None and any(self.repo_cls(x) is not None and self.repo_cls(x).lookup('__eq__') for x in (l, r)):
            e = self.static_truth(self.compare_op('==', l, r, node))
        return e

    def contains_(self, l, r, node):
        if isinstance(r, Const) and isinstance(r.v, str) and isinstance(l, Const) and isinstance(l.v, str):
            return l.v in r.v
        if isinstance(r, Const) and isinstance(r.v, tuple) and isinstance(l, Const):
            return l.v in r.v
        if isinstance(r, (Seq, Dct)) and not (isinstance(r, Dct) and r.open is not None):
            items = self.iter_items(r, node)
            und = False
            for x in items:
                if isinstance(x, Each):
                    und = True
                    continue
                e = self.equal(l, x)
                if e is True:
                    return True
                if e is None:
                    c = self.compare_op('==', l, x, node)
                    s = self.static_truth(c)
                    if s is True:
                        return True
                    if s is None:
                        if isinstance(x, Const) or isinstance(l, Const):
                            if self.truth(c, node):
                                return True
                        else:
                            und = True
            if not und:
                return False
            if isinstance(l, Const) and isinstance(r, Dct):
                return None
            return None
        return None

    def e_Lambda(self, e, fr):
        fn = Fn(e, fr.module, cls=fr.cls, closure=fr, qual=fr.qual + '.<lambda>')
        fn.defaults = self.eval_defaults(e.args, fr)
        return fn

    def e_Starred(self, e, fr):
        return T('star', self.eval(e.value, fr))

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            return NONE
        if callable(f.yields):
            f.yields(v)
        else:
            self.seq_append(f.yields, v)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        for i in self.iter_items(v, e):
            if isinstance(fr.yields, Seq):
                self.seq_append(fr.yields, i)
        return NONE

    # comprehensions
    def comp(self, e, fr, emit):
        sub = Frame(fr.module, parent=fr, cls=fr.cls, qual=fr.qual, node=None)
        sub.yields = None

        def rec(i):
            if i == len(e.generators):
                emit(sub)
                return
            g = e.generators[i]
            itv = self.eval(g.iter, sub if i else fr_proxy)
            for it in self.iter_items(itv, e):
                gen = isinstance(it, Each)
                if gen:
                    self.loopdepth += 1
                try:
                    self.assign(g.target, it.v if gen else it, sub, e)
                    ok = True
                    for c in g.ifs:
                        if not self.truth(self.eval(c, sub), c):
                            ok = False
                            break
                    if ok:
                        rec(i + 1)
                finally:
                    if gen:
                        self.loopdepth -= 1
        fr_proxy = fr
        rec(0)

    def e_ListComp(self, e, fr, kind='list'):
        s = Seq(kind, [], self.loopdepth)
        self.comp(e, fr, lambda sub: self.seq_append(s, self.eval(e.elt, sub)))
        return s

    def e_SetComp(self, e, fr):
        return self.e_ListComp(e, fr, 'set')

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr, 'gen')

    def e_DictComp(self, e, fr):
        d = Dct(depth=self.loopdepth)

        def emit(sub):
            k, v = self.eval(e.key, sub), self.eval(e.value, sub)
            if self.loopdepth > d.depth and not isinstance(k, Const):
                d.items.append([k, v, True])
            else:
                self.dict_put(d, [k, v])
        self.comp(e, fr, emit)
        return d

    # ---- attribute ------------------------------------------------------
    def getattr(self, o, name, node, default=None):
        h = self.hooks.getattr(self, o, name, node)
        if h is not None:
            return h
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return Cls(o.cls) if isinstance(o.cls, ClassInfo) else Ext(o.cls)
            if name == '__dict__':
                return Dct([[Const(k), v] for k, v in o.fields.items()], None if o.fresh else T('attr', o, '__dict__'))
            if isinstance(o.cls, ClassInfo):
                r = o.cls.lookup(name)
                if r is not None:
                    return self.class_member(o, r[0], r[1], name, node)
                k = (o.cls.fq, name)
                for c in o.cls.mro():
                    if isinstance(c, ClassInfo) and (c.fq, name) in self.classattrs:
                        return self.classattrs[(c.fq, name)]
            f = self.hooks.field(self, o, name, node)
            if f is not None:
                o.fields[name] = f
                return f
            if o.fresh and isinstance(o.cls, ClassInfo) and not real_ext(o.cls) and (self.I.strict_fields or default is not None):
                if default is not None:
                    return default
                self.note('noattr', node, o.cname(), name)
                raise PyRaise(Const('no attribute ' + name), 'AttributeError', node, self.where(node))
            v = T('attr', o, name)
            return v
        if isinstance(o, Cls):
            k = None
            for c in o.ci.mro():
                if isinstance(c, ClassInfo) and (c.fq, name) in self.classattrs:
                    return self.classattrs[(c.fq, name)]
            if name in ('__name__', '__qualname__'):
                return Const(o.ci.name)
            r = o.ci.lookup(name)
            if r is not None:
                return self.class_member(o, r[0], r[1], name, node)
            if default is not None and all(b in EXT_ATTRS and name not in EXT_ATTRS[b] for b in o.ci.ext_bases()):
                return default
            return T('attr', o, name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name, node)
        if isinstance(o, Mod):
            if o.name in self.prog.modules:
                r = self.prog.resolve_name(self.prog.modules[o.name], name)
                if r is None and (o.name + '.' + name) in self.prog.modules:
                    return Mod(o.name + '.' + name)
                if r is None:
                    if default is not None:
                        return default
                    self.note('undefined', node, o.name + '.' + name)
                    raise PyRaise(Const('no attribute ' + name), 'AttributeError', node, self.where(node))
                return self.module_name(self.prog.modules[o.name], name, node)
            return Ext(o.name + '.' + name)
        if isinstance(o, Ext):
            k = ('ext', o.name + '.' + name)
            if k in self.globals:
                return self.globals[k]
            if o.name == 'sympy.S':
                c = {'Zero': 0, 'One': 1, 'NegativeOne': -1, 'Half': Fraction(1, 2)}.get(name)
                if c is not None:
                    return Const(c, sym=True)
            return Ext(o.name + '.' + name)
        if isinstance(o, Fn):
            if name in ('__name__', '__qualname__'):
                return Const(o.qual.split('.')[-1])
            if name == '__doc__':
                return T('doc')
            return T('attr', o, name)
        if isinstance(o, T) and isinstance(o.typ, ClassInfo):
            r = o.typ.lookup(name)
            if r is not None:
                return self.class_member(o, r[0], r[1], name, node)
            f = self.hooks.field(self, o, name, node)
            if f is not None:
                return f
            return T('attr', o, name)
        if isinstance(o, (Seq, Dct, Const)):
            return ExtBound(o, name)
        if isinstance(o, T):
            f = self.hooks.field(self, o, name, node)
            if f is not None:
                return f
            return ExtBound(o, name) if False else T('attr', o, name)
        return T('attr', o, name)

    def class_member(self, o, owner, mem, name, node):
        if isinstance(mem, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fr = getattr(owner, 'closure', None)
            fn = Fn(mem, owner.module, cls=owner, closure=fr, qual=owner.qual + '.' + mem.name)
            decos = [deco_name(d) for d in mem.decorator_list]
            if 'staticmethod' in decos:
                return fn
            if 'classmethod' in decos:
                c = o if isinstance(o, Cls) else Cls(o.cls if isinstance(o, Obj) else o.typ)
                return Bound(fn, c)
            if any(d in ('property', 'cached_property') for d in decos) and not isinstance(o, Cls):
                v = self.call(Bound(fn, o), [], {}, node)
                if 'cached_property' in decos and isinstance(o, Obj):
                    o.fields[name] = v
                return v
            dfn = self.decorated(fn, mem, owner)
            if isinstance(o, Cls):
                return dfn
            return Bound(dfn, o)
        if isinstance(mem, ast.ClassDef):
            ci = ClassInfo(mem.name, owner.module, mem, self.prog, outer=owner.qual)
            return Cls(ci)
        # class attribute
        k = (owner.fq, name)
        if k in self.classattrs:
            return self.classattrs[k]
        if isinstance(mem, (ast.Assign, ast.AnnAssign)):
            h = self.hooks.const(self, owner, name)
            if h is not None:
                return h
            fr = Frame(owner.module, qual=owner.qual)
            fr.node = owner.node
            # other class-level names are visible
            for n2, m2 in owner.members.items():
                if isinstance(m2, (ast.FunctionDef,)) and '$' not in n2:
                    fr.vars.setdefault(n2, Fn(m2, owner.module, cls=owner, qual=owner.qual + '.' + n2))
            self.stack.append(fr)
            try:
                tgt = mem.targets[0] if isinstance(mem, ast.Assign) else mem.target
                v = self.eval(mem.value, fr)
                if isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(v, Seq):
                    for e2, x in zip(tgt.elts, v.items):
                        if isinstance(e2, ast.Name) and e2.id == name:
                            v = x
                            break
            finally:
                self.stack.pop()
            if isinstance(v, Fn) and not isinstance(o, Cls) and not isinstance(v.node, ast.Lambda):
                return Bound(v, o)
            if isinstance(v, Fn) and not isinstance(o, Cls):
                return Bound(v, o)
            self.classattrs[k] = v
            return v
        return T('attr', o, name)

    def super_attr(self, o, name, node):
        start = o.ci
        cls = o.self_.cls if isinstance(o.self_, Obj) else (o.self_.ci if isinstance(o.self_, Cls) else start)
        mro = cls.mro() if isinstance(cls, ClassInfo) else start.mro()
        if start not in mro:
            mro = start.mro()
        i = mro.index(start)
        for c in mro[i + 1:]:
            if isinstance(c, ClassInfo):
                if name in c.members:
                    return self.class_member(o.self_, c, c.members[name], name, node)
            else:
                return Ext(c + '.' + name) if name != '__init__' else Prim('ext-init', lambda m, a, k, n: NONE)
        if name == '__init__':
            return Prim('object-init', lambda m, a, k, n: NONE)
        return Ext('builtins.object.' + name)

    # ---- subscript ------------------------------------------------------
    def getitem(self, o, i, node):
        h = self.hooks.getitem(self, o, i, node)
        if h is not None:
            return h
        if isinstance(i, T) and i.op == 'slice' and len(i.args) == 3:
            return self.slice(o, i.args[0], i.args[1], i.args[2], node)
        if isinstance(o, Seq):
            if isinstance(i, Const) and isinstance(i.v, int) and not isinstance(i.v, bool):
                if o.concrete():
                    if -len(o.items) <= i.v < len(o.items):
                        return o.items[i.v]
                    raise PyRaise(Const('index'), 'IndexError', node, self.where(node))
                # leading concrete items
                n = 0
                while n < len(o.items) and not isinstance(o.items[n], Each):
                    n += 1
                if 0 <= i.v < n:
                    return o.items[i.v]
                if i.v < 0:
                    n = 0
                    while n < len(o.items) and not isinstance(o.items[-1 - n], Each):
                        n += 1
                    if -i.v <= n:
                        return o.items[i.v]
                ev = [x.v for x in o.items if isinstance(x, Each)]
                if len(ev) == 1 and len(o.items) == 1:
                    return ev[0]
            elif not o.concrete():
                ev = [x for x in o.items if isinstance(x, Each)]
                if len(ev) == 1 and len(o.items) == 1:
                    return ev[0].v
            return T('getitem', frozen(o), i)
        if isinstance(o, Dct):
            gen = []
            for it in o.items:
                g = len(it) > 2 and it[2]
                if it[0] == i:
                    return it[1]
                if g:
                    gen.append(it)
            if o.open is not None:
                return T('getitem', o.open, i)
            if gen:
                if len(gen) == 1 and not isinstance(i, Const):
                    return gen[0][1]
                return T('getitem', frozen(o), i)
            it, dec = self.dict_find(o, i, node)
            if dec:
                if it is not None:
                    return it[1]
                self.note('keyerror', node, i)
                raise PyRaise(Const('key %r' % (i,)), 'KeyError', node, self.where(node))
            if isinstance(i, Const) and all(isinstance(it[0], Const) for it in o.items):
                self.note('keyerror', node, i)
                raise PyRaise(Const('key %r' % (i,)), 'KeyError', node, self.where(node))
            if all(isinstance(it[0], Const) for it in o.items) and not isinstance(i, (Obj, Seq, Dct)):
                # symbolic key into a constant table: partition on the key
                for it in o.items:
                    if self.truth(self.compare_op('==', i, it[0], node), node):
                        return it[1]
                raise PyRaise(T('KeyError', i), 'KeyError', node, self.where(node))
            return T('getitem', frozen(o), i)
        if isinstance(o, Const):
            if isinstance(o.v, (str, tuple)) and isinstance(i, Const) and isinstance(i.v, int):
                try:
                    x = o.v[i.v]
                    return x if isinstance(x, V) else Const(x)
                except IndexError:
                    raise PyRaise(Const('index'), 'IndexError', node, self.where(node))
            if o.v is None:
                raise PyRaise(Const('subscript'), 'TypeError', node, self.where(node))
        if isinstance(o, Obj) and isinstance(o.cls, ClassInfo):
            if o.cls.lookup('__getitem__'):
                return self.call_method(o, '__getitem__', [i], {}, node)
        if isinstance(o, T) and isinstance(o.typ, ClassInfo) and o.typ.lookup('__getitem__'):
            return self.call_method(o, '__getitem__', [i], {}, node)
        if isinstance(o, (Cls, Ext)):
            return o      # generic alias
        return T('getitem', o, i)

    # ---- calls ----------------------------------------------------------
    def eval_args(self, e, fr):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                for x in self.iter_items(v, a):
                    args.append(x if isinstance(x, Each) else x)
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, Dct):
                    for it in v.items:
                        if isinstance(it[0], Const):
                            kwargs[it[0].v] = it[1]
                    if v.open is not None:
                        kwargs['**'] = v.open
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return args, kwargs

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.self_ is None:
                f = f.parent
            if f is not None and f.cls is not None:
                return SuperV(f.cls, f.self_)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals') and not e.args:
            return T(e.func.id)
        f = self.eval(e.func, fr)
        args, kwargs = self.eval_args(e, fr)
        if isinstance(f, Ext) and f.name == 'builtins.super' and len(args) == 2 and isinstance(args[0], Cls):
            return SuperV(args[0].ci, args[1])
        return self.call(f, args, kwargs, e)

    def call_method(self, o, name, args, kwargs, node):
        return self.call(self.getattr(o, name, node), args, kwargs, node)

    def call(self, f, args, kwargs, node):
        if isinstance(f, Prim):
            return f.py(self, args, kwargs, node)
        h = self.hooks.call(self, f, args, kwargs, node)
        if h is not None:
            return h
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + args, kwargs, node)
            return self.call(f.fn, [f.self_] + args, kwargs, node)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, node)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs, node)
        if isinstance(f, ExtBound):
            return self.call_extmethod(f.self_, f.name, args, kwargs, node)
        if isinstance(f, Obj) and isinstance(f.cls, ClassInfo) and f.cls.lookup('__call__'):
            return self.call_method(f, '__call__', args, kwargs, node)
        if isinstance(f, T) and f.op == 'attr' and isinstance(f.args[0], V):
            return self.call_extmethod(f.args[0], f.args[1], args, kwargs, node)
        if isinstance(f, T) and isinstance(f.typ, ClassInfo) and f.typ.lookup('__call__'):
            return self.call_method(f, '__call__', args, kwargs, node)
        if isinstance(f, Const):
            self.note('notcallable', node, f)
            raise PyRaise(Const('not callable'), 'TypeError', node, self.where(node))
        return T('call', f, *self.flat(args, kwargs))

    def flat(self, args, kwargs):
        return tuple(frozen(a) for a in args) + tuple(T('kw', k, frozen(v)) for k, v in sorted(kwargs.items()))

    def construct(self, f, args, kwargs, node):
        ci = f.ci
        # namedtuple / exception / simple
        ext = ci.ext_bases()
        if any(b.split('.')[-1] in BUILTIN_EXC for b in ext):
            return Obj(self.fresh('new:' + ci.name), ci, fresh=True)
        if any(b in ('builtins.dict', 'collections.OrderedDict', 'typing.Dict', 'typing.OrderedDict') for b in ext) and not any(
                ci.lookup(x) for x in ('__init__', '__new__', '__setitem__', '__getitem__', '__missing__')):
            from .extmodel import TABLE
            return TABLE['builtins.dict'](self, args, kwargs, node)
        o = Obj(self.fresh('new:' + ci.name), ci, fresh=True)
        o.depth = self.loopdepth
        nw = ci.lookup('__new__')
        if nw is not None:
            fn = Fn(nw[1], nw[0].module, cls=nw[0], qual=nw[0].qual + '.__new__')
            r = self.call(fn, [f] + args, kwargs, node)
            if not (isinstance(r, Obj) and isinstance(r.cls, ClassInfo) and ci in r.cls.mro()):
                return r
            o = r
        init = ci.lookup('__init__')
        if init is not None:
            fr = getattr(init[0], 'closure', None)
            fn = Fn(init[1], init[0].module, cls=init[0], closure=fr, qual=init[0].qual + '.__init__')
            self.call(Bound(fn, o), args, kwargs, node)
        return o

    def eval_defaults(self, a, fr):
        d = {}
        ps = a.posonlyargs + a.args
        for p, e in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(e, fr)
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = self.eval(e, fr)
        return d

    def bind(self, fn, args, kwargs, node):
        """parameter -> value; raises an abstract TypeError when the call does not fit the signature"""
        a = fn.node.args
        out = {}
        ps = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        openkw = kwargs.pop('**', None)
        pos = list(args)
        generic = [i for i, x in enumerate(pos) if isinstance(x, Each)]
        if generic:
            i0 = generic[0]
            head, tail = pos[:i0], pos[i0:]
            for p, v in zip(ps, head):
                out[p] = v
            rest = ps[len(head):]
            spill = head[len(ps):] + tail
            if a.vararg:
                out[a.vararg.arg] = Seq('tuple', spill if not rest else tail, self.loopdepth)
            for p in rest:
                out[p] = tail[0].v
        else:
            for p, v in zip(ps, pos):
                out[p] = v
            if len(pos) > len(ps):
                if a.vararg is None:
                    self.note('badcall', node, fn.qual, 'too many positional arguments')
                    raise PyRaise(Const('args'), 'TypeError', node, self.where(node))
            if a.vararg is not None:
                out[a.vararg.arg] = Seq('tuple', pos[len(ps):], self.loopdepth)
        kwo = [p.arg for p in a.kwonlyargs]
        npos = len(a.posonlyargs)
        extra = []
        for k, v in kwargs.items():
            if k in ps[npos:] or k in kwo:
                if k in out and not generic:
                    self.note('badcall', node, fn.qual, 'duplicate argument ' + k)
                    raise PyRaise(Const('args'), 'TypeError', node, self.where(node))
                out[k] = v
            elif a.kwarg is not None:
                extra.append([Const(k), v])
            else:
                self.note('badcall', node, fn.qual, 'unexpected keyword ' + k)
                raise PyRaise(Const('args'), 'TypeError', node, self.where(node))
        if a.kwarg is not None:
            out[a.kwarg.arg] = Dct(extra, openkw, self.loopdepth)
        defaults = fn.defaults
        if defaults is None:
            fr = Frame(fn.module, parent=fn.closure, qual=fn.qual)
            self.stack.append(fr)
            try:
                defaults = self.eval_defaults(a, fr)
            finally:
                self.stack.pop()
        for p in ps + kwo:
            if p not in out:
                if openkw is not None:
                    out[p] = T('getitem', openkw, Const(p))
                elif p in defaults:
                    out[p] = defaults[p]
                else:
                    self.note('badcall', node, fn.qual, 'missing argument ' + p)
                    raise PyRaise(Const('args'), 'TypeError', node, self.where(node))
        return out

    def call_fn(self, fn, args, kwargs, node, on_yield=None):
        depth = sum(1 for f in self.stack if f.node is fn.node)
        if depth >= self.I.max_rec or len(self.stack) > 60:
            return T('call', fn, *self.flat(args, kwargs))
        binding = self.bind(fn, args, kwargs, node)
        self.I.visited.add((fn.module.rel, fn.qual))
        self.I.stats['calls'] += 1
        fr = Frame(fn.module, parent=fn.closure, cls=fn.cls, qual=fn.qual, node=fn.node)
        names, gl, nl, isgen, _ = fn_locals(fn.node)
        fr.locals_, fr.globals_, fr.nonlocals = names, set(gl), set(nl)
        fr.vars = binding
        if fn.cls is not None and fn.node.args.args:
            fr.self_ = binding.get(fn.node.args.args[0].arg)
        elif fn.cls is not None and fn.node.args.posonlyargs:
            fr.self_ = binding.get(fn.node.args.posonlyargs[0].arg)
        self.stack.append(fr)
        saved = self.loopdepth
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            if isgen:
                fr.yields = on_yield if on_yield is not None else Seq('gen', [], self.loopdepth)
            try:
                self.exec_body(fn.node.body, fr)
            except Ret as r:
                return fr.yields if isgen and on_yield is None else r.v
            return fr.yields if isgen and on_yield is None else NONE
        finally:
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()
            self.loopdepth = saved

    # ---- external -------------------------------------------------------
    def call_ext(self, name, args, kwargs, node):
        h = self.hooks.ext(self, name, args, kwargs, node)
        if h is not None:
            return h
        short = name.split('.')[-1]
        from . import extmodel
        f = extmodel.TABLE.get(name) or (extmodel.TABLE.get('builtins.' + short) if name.startswith('builtins.') else None)
        if f is not None:
            r = f(self, args, kwargs, node)
            if r is not None:
                return r
        typ = extmodel.RET_TYPES.get(name)
        return T('call', Ext(name), *self.flat(args, kwargs), typ=typ)

    def call_extmethod(self, o, name, args, kwargs, node):
        h = self.hooks.extmethod(self, o, name, args, kwargs, node)
        if h is not None:
            return h
        from . import extmodel
        r = extmodel.method(self, o, name, args, kwargs, node)
        if r is not None:
            return r
        return T('mcall', name, o, *self.flat(args, kwargs))

    def to_str(self, v, node):
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return v
            if isinstance(v.v, (int, Fraction)) or v.v is None:
                return Const(str(v.v))
        if is_strish(v):
            return v
        return T('str', v, typ='builtins.str')


class _CtxRet(Exception):
    def __init__(self, r):
        self.r = r


def real_ext(c):
    """external bases that add behaviour relevant here (printing mix-ins do not)"""
    return [e for e in c.ext_bases() if e.split('.')[-1] not in ('Printable', 'DefaultPrinting', 'object', 'ABC', 'Generic')]


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr.lstrip('_')
    if isinstance(d, ast.Name):
        return d.id.lstrip('_')
    return None


def ext_related(p, n):
    """is an instance of p an instance of n?  True / False / None"""
    if p == n:
        return True
    ps, ns = p.split('.')[-1], n.split('.')[-1]
    if ns == 'object':
        return True
    sub = {'Symbol': ('Expr', 'Basic', 'Atom'), 'Add': ('Expr', 'Basic'), 'Mul': ('Expr', 'Basic'),
           'Pow': ('Expr', 'Basic'), 'Integer': ('Rational', 'Number', 'Expr', 'Basic'),
           'Rational': ('Number', 'Expr', 'Basic'), 'Number': ('Expr', 'Basic'), 'Expr': ('Basic',),
           'Function': ('Expr', 'Basic'), 'AppliedUndef': ('Function', 'Expr', 'Basic'),
           'Derivative': ('Expr', 'Basic'), 'bool': ('int',),
           'Matrix': ('MatrixBase',), 'BasisBaseSymbol': ('Symbol',)}
    if ns in sub.get(ps, ()):
        return True
    if ps in sub.get(ns, ()):
        return None
    groups = [{'str'}, {'list'}, {'tuple'}, {'dict'}, {'set'}, {'int', 'bool'}, {'float'}, {'complex'},
              {'Expr', 'Symbol', 'Add', 'Mul', 'Pow', 'Number', 'Integer', 'Rational', 'Basic', 'Function', 'AppliedUndef', 'Derivative', 'Atom'},
              {'Matrix', 'MatrixBase', 'ImmutableMatrix'}, {'FunctionType'}]
    gp = [i for i, g in enumerate(groups) if ps in g]
    gn = [i for i, g in enumerate(groups) if ns in g]
    if gp and gn and gp != gn:
        return False
    leaf = ('Symbol', 'Add', 'Mul', 'Pow', 'Function', 'AppliedUndef', 'Derivative', 'Number', 'Integer', 'Rational')
    if ps in leaf and ns in leaf:
        return False
    return None


def frozen(o):
    """snapshot of a mutable container, for use inside a term"""
    if isinstance(o, Seq):
        return Seq(o.kind, o.items, o.depth)
    if isinstance(o, Dct):
        return Dct(o.items, o.open, o.depth)
    return o


def contains(v, key):
    stack = [v]
    while stack:
        x = stack.pop()
        if x.key() == key:
            return True
        if isinstance(x, T):
            stack += [a for a in x.args if isinstance(a, V)]
        elif isinstance(x, Each):
            stack.append(x.v)
        elif isinstance(x, Seq):
            stack += x.items
        elif isinstance(x, Dct):
            for i in x.items:
                stack += [i[0], i[1]]
    return False


def flat_sum(v, sign=1):
    if isinstance(v, T) and v.op == '+' and len(v.args) == 2:
        return flat_sum(v.args[0], sign) + flat_sum(v.args[1], sign)
    if isinstance(v, T) and v.op == '-' and len(v.args) == 2:
        return flat_sum(v.args[0], sign) + flat_sum(v.args[1], -sign)
    if isinstance(v, T) and v.op == 'neg':
        return flat_sum(v.args[0], -sign)
    return [(sign, v)]


def is_strish(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or (
        isinstance(v, T) and (v.op in ('concat', 'fmt', 'str', 'join') or v.typ == 'builtins.str'))


def is_boolish(v):
    return (isinstance(v, Const) and isinstance(v.v, bool)) or (isinstance(v, T) and v.typ == 'builtins.bool')


def is_notimpl(v):
    return isinstance(v, Ext) and v.name == 'builtins.NotImplemented'


def concat(parts):
    out = []
    for p in parts:
        ps = p.args if isinstance(p, T) and p.op == 'concat' else (p,)
        for q in ps:
            if isinstance(q, Const) and q.v == '':
                continue
            if out and isinstance(q, Const) and isinstance(q.v, str) and isinstance(out[-1], Const) and isinstance(out[-1].v, str):
                out[-1] = Const(out[-1].v + q.v)
            else:
                out.append(q)
    if not out:
        return Const('')
    if len(out) == 1:
        return out[0]
    return T('concat', *out, typ='builtins.str')


def const_binop(op, l, r):
    a, b = l.v, r.v
    sym = l.sym or r.sym
    try:
        if num(a) and num(b):
            if op == '+':
                return Const(_n(a + b), sym)
            if op == '-':
                return Const(_n(a - b), sym)
            if op == '*':
                return Const(_n(a * b), sym)
            if op == '/' and b != 0:
                if not sym and isinstance(a, int) and isinstance(b, int):
                    return Const(a / b)       # a Python float
                return Const(_n(Fraction(a) / Fraction(b)), sym)
            if op == '//' and b != 0:
                return Const(_n(a // b), sym)
            if op == '%' and b != 0:
                return Const(_n(a % b), sym)
            if op == '**' and isinstance(b, int) and abs(b) < 64 and not (a == 0 and b < 0):
                return Const(_n(Fraction(a) ** b), sym)
            if isinstance(a, int) and isinstance(b, int):
                if op == '^':
                    return Const(a ^ b)
                if op == '|':
                    return Const(a | b)
                if op == '&':
                    return Const(a & b)
                if op == '<<' and 0 <= b < 64:
                    return Const(a << b)
                if op == '>>' and 0 <= b < 64:
                    return Const(a >> b)
        if (isinstance(a, float) or isinstance(b, float)) and (isinstance(a, float) or num(a)) and (isinstance(b, float) or num(b)) and op in ('+', '-', '*', '/', '**', '//', '%'):
            a, b = float(a), float(b)
            if op in ('/', '//', '%') and b == 0:
                return None
            r = {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__, '**': a.__pow__, '//': a.__floordiv__, '%': a.__mod__}[op](b)
            return Const(r, sym) if isinstance(r, float) else None
        if isinstance(a, str) and isinstance(b, str) and op == '+':
            return Const(a + b)
        if isinstance(a, bool) or isinstance(b, bool):
            ints = (bool, int, Fraction)
            if isinstance(a, ints) and isinstance(b, ints):
                return const_binop(op, Const(int(a) if isinstance(a, bool) else a), Const(int(b) if isinstance(b, bool) else b))
        if isinstance(a, str) and isinstance(b, int) and op == '*':
            return Const(a * b)
        if isinstance(b, str) and isinstance(a, int) and op == '*':
            return Const(a * b)
    except Exception:
        return None
    return None


def _n(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


# attributes of library base classes (besides those of object)
EXT_ATTRS = {'sympy.printing.defaults.Printable': {'_repr_disabled', '_repr_latex_', '_repr_png_', '_repr_svg_'}, 'abc.ABC': set()}


class Interp:
    def __init__(self, prog, hooks=None, max_traces=4000, max_steps=60000, max_choices=60, max_rec=3,
                 fork_try=False, zero_iter=False, strict_fields=False):
        self.prog = prog
        self.hooks = hooks or Hooks()
        self.max_traces, self.max_steps, self.max_choices, self.max_rec = max_traces, max_steps, max_choices, max_rec
        self.fork_try, self.zero_iter, self.strict_fields = fork_try, zero_iter, strict_fields
        self.stats = {'traces': 0, 'steps': 0, 'runs': 0, 'undecided': 0, 'calls': 0}
        self.visited = set()

    def run(self, entry):
        """entry(machine) -> value; returns the list of abstract traces"""
        self.stats['runs'] += 1
        traces = []
        prefix = []
        n = 0
        while True:
            m = Machine(self, prefix)
            m.stack.append(Frame(next(iter(self.prog.modules.values())), qual='<entry>'))
            n += 1
            if n > self.max_traces:
                self.stats['undecided'] += 1
                traces.append(Trace('budget', None, m, exc='trace bound'))
                break
            try:
                v = entry(m)
                traces.append(Trace('return', v, m))
            except PyRaise as e:
                traces.append(Trace('raise', e.exc, m, exc=e.cname, node=e))
            except Ret as e:
                traces.append(Trace('return', e.v, m))
            except Infeasible:
                pass
            except Budget as e:
                self.stats['undecided'] += 1
                traces.append(Trace('budget', None, m, exc=str(e)))
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError, AssertionError) as e:
                # the analyser met a value it has no model for: this path is undecided
                if os.environ.get('SA_DEBUG'):
                    raise
                self.stats['undecided'] += 1
                traces.append(Trace('budget', None, m, exc='%s: %s' % (type(e).__name__, e)))
            self.stats['steps'] += m.steps
            # next prefix
            ch = m.choices
            while ch and ch[-1][0] + 1 >= ch[-1][1]:
                ch.pop()
            if not ch:
                break
            prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
        self.stats['traces'] += len(traces)
        return traces

    # convenience
    def method(self, ci, name):
        r = ci.lookup(name)
        if r is None:
            raise AnalysisBroken('%s.%s vanished' % (ci.fq, name))
        return Fn(r[1], r[0].module, cls=r[0], qual=r[0].qual + '.' + name)
