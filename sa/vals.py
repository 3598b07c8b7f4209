"""Abstract values of the value-flow interpreter."""
from fractions import Fraction


def num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


class V:
    __slots__ = ()

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())


class Const(V):
    __slots__ = ('v', 'sym')

    def __init__(self, v, sym=False):
        self.v, self.sym = v, sym

    def key(self):
        if num(self.v) or isinstance(self.v, float) and abs(self.v) < 1e300:
            return ('n', Fraction(self.v))
        return ('c', type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v) if not isinstance(self.v, Fraction) else str(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class T(V):
    """uninterpreted term: operator + argument values (a Herbrand value)"""
    __slots__ = ('op', 'args', 'typ', '_k', 'node')

    def __init__(self, op, *args, typ=None, node=None):
        self.op, self.args, self.typ, self.node = op, args, typ, node
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ('t', self.op) + tuple(a.key() if isinstance(a, V) else a for a in self.args)
        return self._k

    def __repr__(self):
        if not self.args:
            return str(self.op)
        if self.op in ('+', '-', '*', '/', '^', '|', '<', '>', '**', '==', '%', '//') and len(self.args) == 2:
            return '(%r %s %r)' % (self.args[0], self.op, self.args[1])
        if self.op == 'attr':
            return '%r.%s' % self.args
        if self.op == 'getitem':
            return '%r[%r]' % self.args
        return '%s(%s)' % (self.op, ', '.join(repr(a) if isinstance(a, V) else str(a) for a in self.args))


class Obj(V):
    """heap object (mutable, identity by name within one trace)"""
    __slots__ = ('name', 'cls', 'fields', 'fresh', 'exact', 'tag', 'depth')

    def __init__(self, name, cls, fresh=False, exact=True, fields=None, tag=None):
        self.name, self.cls, self.fresh, self.exact = name, cls, fresh, exact
        self.fields = dict(fields or {})
        self.tag = tag
        self.depth = 0

    def key(self):
        return ('o', self.name)

    def cname(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return '%s:%s' % (self.name, self.cname())


class Each(V):
    """the representative element of an unknown number of elements"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return ('each', self.v.key())

    def __repr__(self):
        return '%r...' % (self.v,)


class Seq(V):
    __slots__ = ('kind', 'items', 'depth', 'uid', 'owner')

    def __init__(self, kind, items, depth=0, owner=None):
        self.kind, self.items, self.depth = kind, list(items), depth
        self.owner = owner

    def key(self):
        return ('seq', self.kind) + tuple(i.key() for i in self.items)

    def concrete(self):
        return not any(isinstance(i, Each) for i in self.items)

    def __repr__(self):
        b = {'list': '[]', 'tuple': '()', 'set': '{}'}.get(self.kind, '<>')
        return b[0] + ', '.join(map(repr, self.items)) + b[1]


class Dct(V):
    __slots__ = ('items', 'open', 'depth', 'generic')

    def __init__(self, items=(), open=None, depth=0):
        self.items = [list(i) for i in items]   # [k, v, generic?]
        self.open = open                        # V naming the unknown rest, or None
        self.depth = depth

    def key(self):
        return ('dict', self.open.key() if self.open is not None else None) + tuple(
            (i[0].key(), i[1].key(), bool(len(i) > 2 and i[2])) for i in self.items)

    def __repr__(self):
        return '{' + ', '.join('%r: %r%s' % (i[0], i[1], '...' if len(i) > 2 and i[2] else '') for i in self.items) + (
            ', **%r' % self.open if self.open is not None else '') + '}'


class Fn(V):
    __slots__ = ('node', 'module', 'cls', 'closure', 'qual', 'defaults')

    def __init__(self, node, module, cls=None, closure=None, qual=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.qual = qual or getattr(node, 'name', '<lambda>')
        self.defaults = None

    def key(self):
        return ('fn', self.module.name, self.qual, self.node.lineno, self.node.col_offset)

    def __repr__(self):
        return '<fn %s>' % self.qual


class Bound(V):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def key(self):
        return ('bound', self.fn.key(), self.self_.key())

    def __repr__(self):
        return '<%r.%s>' % (self.self_, getattr(self.fn, 'qual', self.fn))


class Cls(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def key(self):
        return ('cls', self.ci.fq, id(self.ci))

    def __repr__(self):
        return '<class %s>' % self.ci.name


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('mod', self.name)

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(V):
    """external function/class/module, by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('ext', self.name)

    def __repr__(self):
        return self.name


class ExtBound(V):
    """method of a non-repository value (string, list, sympy expression, term)"""
    __slots__ = ('self_', 'name')

    def __init__(self, self_, name):
        self.self_, self.name = self_, name

    def key(self):
        return ('extb', self.self_.key(), self.name)

    def __repr__(self):
        return '%r.%s' % (self.self_, self.name)


class Prim(V):
    """check-defined primitive operation: calling it yields py(m, args, kwargs, node)"""
    __slots__ = ('name', 'py')

    def __init__(self, name, py):
        self.name, self.py = name, py

    def key(self):
        return ('prim', self.name)

    def __repr__(self):
        return '<prim %s>' % self.name


class SuperV(V):
    __slots__ = ('ci', 'self_')

    def __init__(self, ci, self_):
        self.ci, self.self_ = ci, self_

    def key(self):
        return ('super', self.ci.fq, self.self_.key())


def walk(v, seen=None):
    """all sub-values of a value (through terms, sequences, dicts and object fields)"""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if isinstance(x, T):
            stack += [a for a in x.args if isinstance(a, V)]
        elif isinstance(x, Each):
            stack.append(x.v)
        elif isinstance(x, Seq):
            stack += x.items
        elif isinstance(x, Dct):
            for i in x.items:
                stack += [i[0], i[1]]
        elif isinstance(x, Obj):
            stack += list(x.fields.values())
        elif isinstance(x, Bound):
            stack.append(x.self_)
        elif isinstance(x, ExtBound):
            stack.append(x.self_)


def has(v, pred):
    return any(pred(x) for x in walk(v))


def short(v, n=160, depth=5):
    """bounded rendering of a value"""
    def r(x, d):
        if d == 0:
            return '..'
        if isinstance(x, T):
            if not x.args:
                return str(x.op)
            a = [r(y, d - 1) if isinstance(y, V) else str(y) for y in x.args]
            if x.op in ('+', '-', '*', '/', '^', '|', '<', '>', '**', '==', '%', '//', 'is', 'in') and len(a) == 2:
                return '(%s %s %s)' % (a[0], x.op, a[1])
            if x.op == 'attr':
                return '%s.%s' % tuple(a)
            if x.op == 'getitem':
                return '%s[%s]' % tuple(a)
            if x.op == 'concat':
                return ' ++ '.join(a)
            return '%s(%s)' % (x.op, ', '.join(a))
        if isinstance(x, Each):
            return r(x.v, d) + '...'
        if isinstance(x, Seq):
            b = {'list': '[]', 'tuple': '()', 'set': '{}'}.get(x.kind, '<>')
            return b[0] + ', '.join(r(y, d - 1) for y in x.items[:8]) + b[1]
        if isinstance(x, Dct):
            return '{' + ', '.join(r(i[0], d - 1) + ': ' + r(i[1], d - 1) for i in x.items[:8]) + '}'
        if isinstance(x, Obj):
            return x.name
        return repr(x)
    s = r(v, depth)
    return s if len(s) <= n else s[:n - 2] + '..'
