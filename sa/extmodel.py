"""Abstract models of the builtins and the few external functions whose shape matters."""
from fractions import Fraction

from .vals import V, Const, T, Obj, Each, Seq, Dct, Fn, Bound, Cls, Mod, Ext, ExtBound, Prim, NONE, TRUE, FALSE, num
from .prog import ClassInfo


def _I():
    from . import interp
    return interp


TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


RET_TYPES = {
    'sympy.expand': 'sympy.Expr', 'sympy.simplify': 'sympy.Expr', 'sympy.diff': 'sympy.Expr',
    'sympy.trigsimp': 'sympy.Expr', 'sympy.sqrt': 'sympy.Expr', 'sympy.Symbol': 'sympy.Symbol',
    'sympy.Rational': 'sympy.Expr', 'sympy.S': 'sympy.Expr',
    'sympy.eye': 'sympy.Matrix', 'sympy.zeros': 'sympy.Matrix', 'sympy.Matrix': 'sympy.Matrix',
    'builtins.str': 'builtins.str', 'builtins.len': 'builtins.int', 'builtins.repr': 'builtins.str',
    'builtins.abs': None, 'builtins.bool': 'builtins.bool', 'builtins.isinstance': 'builtins.bool',
    'builtins.hasattr': 'builtins.bool', 'builtins.callable': 'builtins.bool',
    'builtins.int': 'builtins.int', 'builtins.hash': 'builtins.int', 'builtins.id': 'builtins.int',
}


@model('builtins.isinstance')
def _isinstance(m, a, k, n):
    return Const(m.isinstance_(a[0], a[1], n))


@model('builtins.issubclass')
def _issub(m, a, k, n):
    if isinstance(a[0], Cls) and isinstance(a[1], Cls):
        return Const(a[1].ci in a[0].ci.mro())
    return None


@model('builtins.len')
def _len(m, a, k, n):
    v = a[0]
    if isinstance(v, Seq) and v.concrete() and v.kind != 'set':
        return Const(len(v.items))
    if isinstance(v, Seq) and v.kind == 'set' and all(isinstance(i, Const) for i in v.items):
        return Const(len({i.key() for i in v.items}))
    if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
        return Const(len(v.v))
    if isinstance(v, Const) and (v.v is None or isinstance(v.v, (int, float))):
        raise _I().PyRaise(Const('object has no len()'), 'TypeError', n, m.where(n))
    if isinstance(v, Dct) and v.open is None and not any(len(i) > 2 and i[2] for i in v.items):
        return Const(len(v.items))
    if isinstance(v, Obj) and m.repo_cls(v) is not None and m.repo_cls(v).lookup('__len__'):
        return m.call_method(v, '__len__', [], {}, n)
    return T('len', _I().frozen(v), typ='builtins.int')


@model('builtins.range')
def _range(m, a, k, n):
    if all(isinstance(x, Const) and isinstance(x.v, int) for x in a) and a:
        r = range(*[x.v for x in a])
        if len(r) <= 64:
            return Seq('gen', [Const(i) for i in r], m.loopdepth)
    lo, hi, st = (Const(0), a[0], Const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else Const(1))
    return Seq('gen', [Each(T('inrange', lo, hi, st, typ='builtins.int'))], m.loopdepth)


def _zipitems(m, lists, n):
    """element-wise tuples"""
    if all(not any(isinstance(i, Each) for i in l) for l in lists):
        return [Seq('tuple', list(t), m.loopdepth) for t in zip(*lists)]
    # mixed: pair the concrete prefix, then one representative
    out = []
    i = 0
    while all(i < len(l) and not isinstance(l[i], Each) for l in lists):
        out.append(Seq('tuple', [l[i] for l in lists], m.loopdepth))
        i += 1
    rest = [l[i:] for l in lists]
    if all(rest):
        reps = []
        for r in rest:
            e = r[0]
            reps.append(e.v if isinstance(e, Each) else (e if len(r) == 1 else T('oneof', *[x.v if isinstance(x, Each) else x for x in r])))
        out.append(Each(Seq('tuple', reps, m.loopdepth)))
    return out


@model('builtins.zip', 'itertools.zip_longest')
def _zip(m, a, k, n):
    if not a:
        return Seq('gen', [], m.loopdepth)
    if any(isinstance(x, Each) for x in a):
        return T('call', Ext('builtins.zip'), *a)
    return Seq('gen', _zipitems(m, [m.iter_items(x, n) for x in a], n), m.loopdepth)


@model('builtins.enumerate')
def _enum(m, a, k, n):
    items = m.iter_items(a[0], n)
    start = a[1] if len(a) > 1 else k.get('start', Const(0))
    out = []
    gen = False
    for i, x in enumerate(items):
        if isinstance(x, Each):
            gen = True
            out.append(Each(Seq('tuple', [T('index', x.v, typ='builtins.int'), x.v], m.loopdepth)))
        elif gen or not (isinstance(start, Const) and isinstance(start.v, int)):
            out.append(Seq('tuple', [T('index', x, typ='builtins.int'), x], m.loopdepth))
        else:
            out.append(Seq('tuple', [Const(i + start.v), x], m.loopdepth))
    return Seq('gen', out, m.loopdepth)


@model('itertools.product')
def _product(m, a, k, n):
    lists = [m.iter_items(x, n) for x in a]
    if 'repeat' in k:
        if not (isinstance(k['repeat'], Const) and isinstance(k['repeat'].v, int)):
            return None
        lists = lists * k['repeat'].v
    if any(any(isinstance(i, Each) for i in l) for l in lists):
        reps = []
        for l in lists:
            reps.append([i for i in l])
        out = [[]]
        for l in reps:
            out = [o + [i] for o in out for i in l]
        if len(out) > 40:
            return None
        res = []
        for o in out:
            t = Seq('tuple', [i.v if isinstance(i, Each) else i for i in o], m.loopdepth)
            res.append(Each(t) if any(isinstance(i, Each) for i in o) else t)
        return Seq('gen', res, m.loopdepth)
    out = [[]]
    for l in lists:
        out = [o + [i] for o in out for i in l]
    if len(out) > 300:
        return None
    return Seq('gen', [Seq('tuple', o, m.loopdepth) for o in out], m.loopdepth)


def _coll(kind):
    def f(m, a, k, n):
        if not a:
            return Seq(kind, [], m.loopdepth)
        if isinstance(a[0], T) and not isinstance(a[0], Each):
            items = m.iter_items(a[0], n)
            return Seq(kind, items, m.loopdepth)
        items = m.iter_items(a[0], n)
        if kind == 'set':
            out = []
            for i in items:
                if i not in out:
                    out.append(i)
            items = out
        return Seq(kind, items, m.loopdepth)
    return f


TABLE['builtins.list'] = _coll('list')
TABLE['builtins.tuple'] = _coll('tuple')
TABLE['builtins.set'] = _coll('set')
TABLE['builtins.frozenset'] = _coll('set')


@model('builtins.iter')
def _iter(m, a, k, n):
    return a[0]


@model('builtins.reversed')
def _rev(m, a, k, n):
    v = a[0]
    if isinstance(v, Seq) and v.concrete() and v.kind != 'set':
        return Seq('gen', list(reversed(v.items)), m.loopdepth)
    if isinstance(v, Seq):
        return Seq('gen', list(reversed(v.items)), m.loopdepth)
    return Seq('gen', [Each(T('elem', v))], m.loopdepth)


def pykey(v):
    """a comparable python value of a sort key made of numbers, strings and sequences of these, or None"""
    if isinstance(v, Const) and (num(v.v) or isinstance(v.v, str)):
        return v.v
    if isinstance(v, Seq) and v.kind in ('list', 'tuple') and v.concrete():
        r = [pykey(x) for x in v.items]
        return None if any(x is None for x in r) else tuple(r) if v.kind == 'tuple' else r
    return None


@model('builtins.sorted')
def _sorted(m, a, k, n):
    v = a[0]
    its = m.iter_items(v, n)
    if all(isinstance(i, Const) and num(i.v) for i in its) and 'key' not in k:
        return Seq('list', sorted(its, key=lambda c: c.v, reverse=bool(k.get('reverse') and k['reverse'].v)), m.loopdepth)
    if len(its) <= 1:
        return Seq('list', its, m.loopdepth)
    if not any(isinstance(i, Each) for i in its) and isinstance(k.get('reverse', FALSE), Const):
        ks = [m.call(k['key'], [i], {}, n) for i in its] if k.get('key', NONE) != NONE else its
        py = [pykey(x) for x in ks]
        if all(x is not None for x in py):
            try:
                o = sorted(range(len(its)), key=lambda j: py[j], reverse=bool(k.get('reverse', FALSE).v))
            except TypeError:
                o = None
            if o is not None:
                return Seq('list', [its[j] for j in o], m.loopdepth)
    return Seq('list', [i if isinstance(i, Each) else Each(i) for i in its], m.loopdepth)


@model('builtins.dict', 'collections.OrderedDict', 'typing.OrderedDict', 'typing.Dict')
def _dict(m, a, k, n):
    d = Dct(depth=m.loopdepth)
    if a:
        v = a[0]
        if isinstance(v, Dct):
            d.items = [list(i) for i in v.items]
            d.open = v.open
        elif isinstance(v, Seq):
            for it in v.items:
                g = isinstance(it, Each)
                p = it.v if g else it
                kk = m.getitem(p, Const(0), n)
                vv = m.getitem(p, Const(1), n)
                if g:
                    d.items.append([kk, vv, True])
                else:
                    m.dict_put(d, [kk, vv])
        else:
            d.open = v
    for kk, vv in k.items():
        if kk == '**':
            d.open = vv
        else:
            m.dict_put(d, [Const(kk), vv])
    return d


@model('collections.defaultdict')
def _ddict(m, a, k, n):
    return Dct([], T('defaultdict', *(a[:1])), m.loopdepth)


@model('builtins.sum')
def _sum(m, a, k, n):
    init = a[1] if len(a) > 1 else k.get('start', Const(0))
    its = m.iter_items(a[0], n)
    acc = init
    for i in its:
        if isinstance(i, Each):
            v = T('sum', i.v, typ=getattr(i.v, 'typ', None))
            acc = m.simple_add('+', acc, v) if not m.repo_cls(acc) else m.binop('+', acc, v, n)
        else:
            acc = m.binop('+', acc, i, n)
    return acc


@model('functools.reduce')
def _reduce(m, a, k, n):
    f = a[0]
    its = m.iter_items(a[1], n)
    if len(a) > 2:
        acc = a[2]
    else:
        if not its:
            raise _I().PyRaise(Const('reduce'), 'TypeError', n, m.where(n))
        acc = its[0]
        its = its[1:]
        if isinstance(acc, Each):
            e = acc.v
            phi = T('phi', 'reduce', 'acc', e)
            m.loopdepth += 1
            try:
                r = m.call(f, [phi, e], {}, n)
            finally:
                m.loopdepth -= 1
            acc = m.summarise(e, phi, r)
    for i in its:
        if isinstance(i, Each):
            phi = T('phi', 'reduce', 'acc', acc)
            m.loopdepth += 1
            try:
                r = m.call(f, [phi, i.v], {}, n)
            finally:
                m.loopdepth -= 1
            acc = m.summarise(acc, phi, r)
        else:
            acc = m.call(f, [acc, i], {}, n)
    return acc


@model('functools.partial')
def _partial(m, a, k, n):
    f, a0, k0 = a[0], list(a[1:]), dict(k)

    def py(m2, args, kwargs, node):
        kk = dict(k0)
        kk.update(kwargs)
        return m2.call(f, a0 + args, kk, node)
    return Prim('partial(%r,%r)' % (f, a0), py)


@model('builtins.map')
def _map(m, a, k, n):
    if len(a) == 2:
        its = m.iter_items(a[1], n)
        argl = [[i] for i in its]
    else:
        argl = []
        for t in _zipitems(m, [m.iter_items(x, n) for x in a[1:]], n):
            argl.append([t])
    out = []
    for [i] in argl:
        g = isinstance(i, Each)
        v = i.v if g else i
        args = list(v.items) if len(a) > 2 else [v]
        if g:
            m.loopdepth += 1
        try:
            r = m.call(a[0], args, {}, n)
        finally:
            if g:
                m.loopdepth -= 1
        out.append(Each(r) if g else r)
    return Seq('gen', out, m.loopdepth)


@model('builtins.filter')
def _filter(m, a, k, n):
    out = []
    for i in m.iter_items(a[1], n):
        v = i.v if isinstance(i, Each) else i
        c = v if isinstance(a[0], Const) else m.call(a[0], [v], {}, n)
        if m.truth(c, n):
            out.append(i)
    return Seq('gen', out, m.loopdepth)


@model('builtins.any')
def _any(m, a, k, n):
    for i in m.iter_items(a[0], n):
        if m.truth(i.v if isinstance(i, Each) else i, n):
            return TRUE
    return FALSE


@model('builtins.all')
def _all(m, a, k, n):
    for i in m.iter_items(a[0], n):
        if not m.truth(i.v if isinstance(i, Each) else i, n):
            return FALSE
    return TRUE


@model('builtins.bool')
def _bool(m, a, k, n):
    if not a:
        return FALSE
    s = m.static_truth(a[0], n)
    if s is not None:
        return Const(s)
    return a[0] if _I().is_boolish(a[0]) else T('bool', a[0], typ='builtins.bool')


@model('operator.not_')
def _not(m, a, k, n):
    s = m.static_truth(a[0], n)
    return Const(not s) if s is not None else T('not', a[0], typ='builtins.bool')


@model('builtins.abs')
def _abs(m, a, k, n):
    v = a[0]
    if isinstance(v, Const) and num(v.v):
        return Const(abs(v.v), v.sym)
    if m.repo_cls(v) is not None and m.repo_cls(v).lookup('__abs__'):
        return m.call_method(v, '__abs__', [], {}, n)
    return T('abs', v, typ=getattr(v, 'typ', None))


@model('builtins.min', 'builtins.max')
def _minmax(m, a, k, n):
    return None


def _mm(which):
    def f(m, a, k, n):
        its = m.iter_items(a[0], n) if len(a) == 1 else a
        if its and all(isinstance(i, Const) and num(i.v) for i in its):
            return (min if which == 'min' else max)(its, key=lambda c: c.v)
        return T(which, *its, typ='builtins.int')
    return f


TABLE['builtins.min'] = _mm('min')
TABLE['builtins.max'] = _mm('max')


@model('builtins.str')
def _str(m, a, k, n):
    if not a:
        return Const('')
    v = a[0]
    c = m.repo_cls(v)
    if c is not None and c.lookup('__str__') and m.I.inline_str if hasattr(m.I, 'inline_str') else False:
        return m.call_method(v, '__str__', [], {}, n)
    return m.to_str(v, n)


@model('builtins.repr')
def _repr(m, a, k, n):
    return T('repr', a[0], typ='builtins.str')


@model('builtins.int')
def _int(m, a, k, n):
    if a and isinstance(a[0], Const):
        try:
            return Const(int(a[0].v))
        except (TypeError, ValueError):
            return None
    if a and getattr(a[0], 'typ', None) == 'builtins.int':
        return a[0]
    return T('int', *a, typ='builtins.int')


@model('builtins.float')
def _float(m, a, k, n):
    if len(a) == 1 and isinstance(a[0], Const) and isinstance(a[0].v, (int, float, str, Fraction)):
        try:
            return Const(float(a[0].v if not isinstance(a[0].v, str) or '/' not in a[0].v else 'x'))
        except ValueError:
            raise _I().PyRaise(Const('could not convert to float'), 'ValueError', n, m.where(n))
    return None


def never_set(m, o, name):
    """an attribute of an object of the model that only operations made later could have set"""
    if not (isinstance(o, Obj) and isinstance(name, str) and name not in o.fields):
        return False
    c = m.repo_cls(o)
    if c is None or c.lookup(name) or not plain(c, name):
        return False
    b = c.built_attrs()
    return name not in b and None not in b


@model('builtins.getattr')
def _getattr(m, a, k, n):
    if isinstance(a[1], Const):
        I = _I()
        if len(a) > 2 and never_set(m, a[0], a[1].v):
            return a[2]
        try:
            return m.getattr(a[0], a[1].v, n, default=a[2] if len(a) > 2 else None)
        except I.PyRaise as e:
            if len(a) > 2 and e.cname == 'AttributeError':
                return a[2]
            raise
    return T('getattr', *a)


@model('builtins.setattr')
def _setattr(m, a, k, n):
    if isinstance(a[1], Const):
        m.setattr(a[0], a[1].v, a[2], n)
    else:
        m.effect('setattr', a[0], a[1], a[2], n)
    return NONE


def plain(c, name):
    """no base outside the package that could define the name"""
    return all(b.split('.')[-1] in ('object', 'ABC', 'Generic') or b.split('.')[-1] == 'Printable' and not name.startswith('_repr') for b in c.ext_bases()) and not hasattr(object, name)


@model('builtins.hasattr')
def _hasattr(m, a, k, n):
    o, name = a[0], a[1]
    if isinstance(name, Const):
        if isinstance(o, Obj):
            if name.v in o.fields:
                return TRUE
            if isinstance(o.cls, type(None)):
                return None
            c = m.repo_cls(o)
            if c is not None:
                if c.lookup(name.v):
                    return TRUE
                if o.fresh and plain(c, name.v) or never_set(m, o, name.v):
                    return FALSE
        if isinstance(o, Cls):
            if o.ci.lookup(name.v):
                return TRUE
            if plain(o.ci, name.v) and not hasattr(type, name.v):
                return FALSE
        if isinstance(o, Const) and (o.v is None or isinstance(o.v, str)):
            return Const(hasattr(o.v, name.v))
        if isinstance(o, Seq) and o.kind in ('list', 'tuple', 'set'):
            return Const(hasattr({'list': list, 'tuple': tuple, 'set': set}[o.kind], name.v))
    if isinstance(name, Const) and isinstance(o, T) and isinstance(o.typ, ClassInfo) and o.typ.lookup(name.v):
        return TRUE
    return T('hasattr', o, name, typ='builtins.bool')


@model('builtins.type')
def _type(m, a, k, n):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, Obj):
            return Cls(v.cls) if not isinstance(v.cls, str) else Ext(v.cls)
        if isinstance(v, T) and v.typ is not None and not isinstance(v.typ, str):
            return Cls(v.typ)
        return T('type', v)
    return None


@model('builtins.callable')
def _callable(m, a, k, n):
    v = a[0]
    if isinstance(v, (Fn, Bound, Prim, Cls, Ext, ExtBound)):
        return TRUE
    if isinstance(v, (Const, Seq, Dct)):
        return FALSE
    return None


@model('builtins.print', 'warnings.warn', 'warnings.simplefilter')
def _noop(m, a, k, n):
    m.note('print', n)
    return NONE


@model('copy.copy')
def _copy(m, a, k, n):
    v = a[0]
    if isinstance(v, Seq):
        return Seq(v.kind, v.items, m.loopdepth)
    if isinstance(v, Dct):
        d = Dct(v.items, v.open, m.loopdepth)
        return d
    if isinstance(v, Obj):
        o = Obj(m.fresh('copy:' + v.name), v.cls, fresh=True, fields=v.fields)
        if not v.fresh:
            o.tag = ('copyof', v)
        return o
    return v


@model('copy.deepcopy')
def _deepcopy(m, a, k, n):
    memo = {}

    def go(v):
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, Seq):
            r = Seq(v.kind, [go(x) for x in v.items] if v.concrete() else v.items, m.loopdepth)
        elif isinstance(v, Dct):
            r = Dct([[go(x) for x in it] for it in v.items], v.open, m.loopdepth)
        elif isinstance(v, Obj):
            r = Obj(m.fresh('copy:' + v.name), v.cls, fresh=True, fields={})
            memo[id(v)] = v, r
            r.fields.update({f: go(x) for f, x in v.fields.items()})
            if not v.fresh:
                r.tag = ('copyof', v)
            return r
        else:
            return v
        memo[id(v)] = v, r
        return r
    return go(a[0])


@model('sympy.S', 'sympy.sympify')
def _S(m, a, k, n):
    v = a[0]
    if isinstance(v, Const) and num(v.v):
        return Const(v.v, sym=True)
    if isinstance(v, T) and v.typ == 'sympy.Expr':
        return v
    if isinstance(v, T) and v.typ is None:
        return T('S', v, typ='sympy.Expr')
    return None


@model('sympy.Rational')
def _Rat(m, a, k, n):
    if len(a) == 1 and isinstance(a[0], Const) and isinstance(a[0].v, str):
        try:
            return Const(_I()._n(Fraction(a[0].v)), sym=True)
        except (ValueError, ZeroDivisionError):
            return None
    if all(isinstance(x, Const) and num(x.v) for x in a):
        if len(a) == 2 and a[1].v != 0:
            return Const(_I()._n(Fraction(a[0].v) / Fraction(a[1].v)), sym=True)
        if len(a) == 1:
            return Const(a[0].v, sym=True)
    if len(a) == 2:
        return T('/', a[0], a[1], typ='sympy.Expr')
    return None


@model('sympy.Integer')
def _Integer(m, a, k, n):
    if isinstance(a[0], Const) and num(a[0].v):
        return Const(a[0].v, sym=True)
    return None


def _op(op):
    def f(m, a, k, n):
        return m.binop(op, a[0], a[1], n)
    return f


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('xor', '^'), ('or_', '|'),
               ('and_', '&'), ('pow', '**'), ('mod', '%'), ('floordiv', '//'), ('lshift', '<<'),
               ('rshift', '>>'), ('iadd', '+')):
    TABLE['operator.' + _n] = _op(_o)


def _cmp(op):
    def f(m, a, k, n):
        return m.compare_op(op, a[0], a[1], n)
    return f


for _n, _o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
    TABLE['operator.' + _n] = _cmp(_o)


@model('operator.neg')
def _neg(m, a, k, n):
    return m.unop('neg', a[0], n)


@model('operator.itemgetter')
def _itemgetter(m, a, k, n):
    idx = list(a)

    def py(m2, args, kwargs, node):
        if len(idx) == 1:
            return m2.getitem(args[0], idx[0], node)
        return Seq('tuple', [m2.getitem(args[0], i, node) for i in idx], m2.loopdepth)
    return Prim('itemgetter%r' % (idx,), py)


@model('operator.attrgetter')
def _attrgetter(m, a, k, n):
    nm = a[0].v
    return Prim('attrgetter(%s)' % nm, lambda m2, args, kw, node: m2.getattr(args[0], nm, node))


@model('builtins.id', 'builtins.hash')
def _idh(m, a, k, n):
    return None


@model('builtins.pow')
def _pow(m, a, k, n):
    return m.binop('**', a[0], a[1], n) if len(a) == 2 else None


@model('builtins.divmod')
def _divmod(m, a, k, n):
    return Seq('tuple', [m.binop('//', a[0], a[1], n), m.binop('%', a[0], a[1], n)], m.loopdepth)


@model('builtins.next')
def _next(m, a, k, n):
    its = m.iter_items(a[0], n)
    if its:
        return its[0].v if isinstance(its[0], Each) else its[0]
    if len(a) > 1:
        return a[1]
    raise _I().PyRaise(Const('stop'), 'StopIteration', n, m.where(n))


@model('itertools.chain')
def _chain(m, a, k, n):
    out = []
    for x in a:
        out += [i for i in m.iter_items(x, n)] if not isinstance(x, Each) else [Each(T('elem', x.v))]
    return Seq('gen', out, m.loopdepth)


@model('itertools.chain.from_iterable')
def _chain2(m, a, k, n):
    out = []
    for x in m.iter_items(a[0], n):
        g = isinstance(x, Each)
        for i in m.iter_items(x.v if g else x, n):
            out.append(Each(i) if g and not isinstance(i, Each) else i)
    return Seq('gen', out, m.loopdepth)


@model('typing.cast')
def _cast(m, a, k, n):
    return a[1]


@model('builtins.property')
def _prop(m, a, k, n):
    return None


@model('itertools.combinations', 'itertools.permutations')
def _comb(m, a, k, n):
    if len(a) == 2 and isinstance(a[1], Const):
        its = m.iter_items(a[0], n)
        if not any(isinstance(i, Each) for i in its):
            import itertools
            l = list(itertools.combinations(its, a[1].v))
            if len(l) <= 64:
                return Seq('gen', [Seq('tuple', list(t), m.loopdepth) for t in l], m.loopdepth)
    return None


# ---- methods of non-repository values -----------------------------------
def method(m, o, name, args, kwargs, node):
    I = _I()
    if isinstance(o, Seq):
        return seq_method(m, o, name, args, kwargs, node)
    if isinstance(o, Dct):
        return dict_method(m, o, name, args, kwargs, node)
    if isinstance(o, Const) and isinstance(o.v, str):
        return str_method(m, o, name, args, kwargs, node)
    if I.is_strish(o):
        if name == 'format':
            return T('fmt', o, *args, *[T('kw', k, v) for k, v in sorted(kwargs.items())], typ='builtins.str')
        if name in ('strip', 'lstrip', 'rstrip', 'replace', 'upper', 'lower', 'title', 'capitalize', 'join', 'zfill'):
            return T('mcall', name, I.frozen(o), *args, typ='builtins.str')
        if name in ('startswith', 'endswith', 'isdigit'):
            return T('mcall', name, I.frozen(o), *args, typ='builtins.bool')
        return None
    if name in ('items',) and not args:
        return Seq('gen', [Each(Seq('tuple', [T('key', o), T('val', o)], m.loopdepth))], m.loopdepth)
    if name == 'keys' and not args:
        return Seq('gen', [Each(T('key', o))], m.loopdepth)
    if name == 'values' and not args:
        return Seq('gen', [Each(T('val', o))], m.loopdepth)
    if name == 'copy' and not args:
        return o if isinstance(o, T) else None
    if name in ('append', 'extend', 'insert', 'remove', 'pop', 'update', 'clear', 'sort', 'reverse', 'add',
                'setdefault', 'popitem', 'row_swap', 'col_swap', 'row_del', 'col_del', '__setitem__'):
        m.effect('extmut', o, name, args, node)
    if name == 'format' and not isinstance(o, Obj):
        return T('fmt', o, *args, *[T('kw', k, v) for k, v in sorted(kwargs.items())], typ='builtins.str')
    return None


def seq_method(m, o, name, args, kwargs, node):
    I = _I()
    if name == 'append':
        m.effect('seq-append', o, name, args, node)
        m.seq_append(o, args[0])
        return NONE
    if name == 'add':
        m.effect('seq-append', o, name, args, node)
        if args[0] not in o.items:
            m.seq_append(o, args[0])
        return NONE
    if name in ('extend', 'update'):
        m.effect('seq-extend', o, name, args, node)
        for i in m.iter_items(args[0], node):
            m.seq_append(o, i)
        return NONE
    if name == 'insert':
        m.effect('seq-insert', o, name, args, node)
        if isinstance(args[0], Const) and o.concrete() and m.loopdepth <= o.depth:
            o.items.insert(args[0].v, args[1])
        else:
            m.seq_append(o, args[1])
        return NONE
    if name == 'pop':
        m.effect('seq-pop', o, name, args, node)
        i = args[0].v if args and isinstance(args[0], Const) else (-1 if not args else None)
        if o.concrete() and isinstance(i, int):
            if -len(o.items) <= i < len(o.items):
                return o.items.pop(i)
            raise I.PyRaise(Const('pop'), 'IndexError', node, m.where(node))
        if isinstance(i, int) and o.items and i in (0, -1) and not isinstance(o.items[i], Each):
            return o.items.pop(i)
        return T('elem', I.frozen(o))
    if name in ('remove', 'clear', 'sort', 'reverse', 'discard'):
        m.effect('seq-' + name, o, name, args, node)
        if name == 'clear':
            o.items = []
        elif name == 'reverse':
            o.items.reverse()
        elif name == 'sort':
            r = _sorted(m, [Seq('list', list(o.items))], kwargs, node)
            if r.concrete():
                o.items = list(r.items)
        elif name in ('remove', 'discard') and args[0] in o.items:
            o.items.remove(args[0])
        return NONE
    if name == 'copy':
        return Seq(o.kind, o.items, m.loopdepth)
    if name == 'index':
        if o.concrete() and isinstance(args[0], Const) and all(isinstance(i, Const) for i in o.items):
            if args[0] in o.items:
                return Const(o.items.index(args[0]))
            raise I.PyRaise(Const('index'), 'ValueError', node, m.where(node))
        if o.concrete():
            for k, i in enumerate(o.items):
                e = True if i == args[0] else m.static_veq(i, args[0], node)
                if e is None:
                    break
                if e:
                    return Const(k)
            else:
                raise I.PyRaise(Const('index'), 'ValueError', node, m.where(node))
        return T('mcall', 'index', o, *args, typ='builtins.int')
    if name == 'count':
        if o.concrete():
            es = [True if i == args[0] else m.static_veq(i, args[0], node) for i in o.items]
            if None not in es:
                return Const(sum(es))
        return T('mcall', 'count', o, *args, typ='builtins.int')
    return T('mcall', name, I.frozen(o), *args)


def dict_method(m, o, name, args, kwargs, node):
    I = _I()
    if name in ('items', 'keys', 'values'):
        out = []
        for it in o.items:
            g = len(it) > 2 and it[2]
            v = Seq('tuple', [it[0], it[1]], m.loopdepth) if name == 'items' else it[0 if name == 'keys' else 1]
            out.append(Each(v) if g else v)
        if o.open is not None:
            k, v = T('key', o.open), T('val', o.open)
            out.append(Each(Seq('tuple', [k, v], m.loopdepth) if name == 'items' else (k if name == 'keys' else v)))
        return Seq('keys' if name == 'keys' else 'gen', out, m.loopdepth)
    if name in ('get', 'pop', 'setdefault'):
        if name != 'get':
            m.effect('dict-' + name, o, name, args, node)
        key = args[0]
        for it in o.items:
            if it[0] == key and not (len(it) > 2 and it[2]):
                v = it[1]
                if name == 'pop':
                    o.items.remove(it)
                return v
        gen = any(len(i) > 2 and i[2] for i in o.items)
        it, dec = m.dict_find(o, key, node)
        if dec:
            if it is not None:
                if name == 'pop':
                    o.items.remove(it)
                return it[1]
            if len(args) > 1:
                if name == 'setdefault':
                    m.setitem(o, key, args[1], node)
                return args[1]
            if name == 'pop':
                raise I.PyRaise(Const('key'), 'KeyError', node, m.where(node))
            return NONE
        if o.open is None and not gen and isinstance(key, Const) and all(isinstance(i[0], Const) for i in o.items):
            if len(args) > 1:
                if name == 'setdefault':
                    m.setitem(o, key, args[1], node)
                return args[1]
            if name == 'pop':
                raise I.PyRaise(Const('key'), 'KeyError', node, m.where(node))
            return NONE
        if o.open is None and not gen and not isinstance(key, (Seq, Dct)) and all(isinstance(i[0], Const) for i in o.items):
            for it in o.items:
                if m.truth(m.compare_op('==', key, it[0], node), node):
                    return it[1]
            return args[1] if len(args) > 1 else NONE
        d = args[1] if len(args) > 1 else NONE
        for it in o.items:
            if it[0] == key:
                return it[1]
        if name == 'setdefault':
            m.setitem(o, key, d, node)
            return d
        if o.open is not None:
            if m.truth(T('in', key, o.open, typ='builtins.bool'), node):
                return T('getitem', o.open, key)
            return d
        return T('dictget', I.frozen(o), key, d)
    if name == 'update':
        m.effect('dict-update', o, name, args, node)
        if args and isinstance(args[0], Dct):
            for it in args[0].items:
                m.dict_put(o, it)
            if args[0].open is not None:
                o.open = args[0].open
        elif args:
            o.open = T('updated', args[0])
        for k, v in kwargs.items():
            if k != '**':
                m.dict_put(o, [Const(k), v])
        return NONE
    if name == 'clear':
        m.effect('dict-clear', o, name, args, node)
        o.items = []
        o.open = None
        return NONE
    if name == 'copy':
        return Dct(o.items, o.open, m.loopdepth)
    if name == 'popitem':
        m.effect('dict-popitem', o, name, args, node)
        if o.items and o.open is None and not (len(o.items[-1]) > 2):
            it = o.items.pop()
            return Seq('tuple', [it[0], it[1]], m.loopdepth)
    return T('mcall', name, I.frozen(o), *args)


def str_method(m, o, name, args, kwargs, node):
    I = _I()
    if name == 'format':
        import string
        try:
            parts = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(o.v):
                if lit:
                    parts.append(Const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    base = field.split('.')[0].split('[')[0]
                    v = kwargs.get(base) if base in kwargs else (args[int(base)] if base.isdigit() else T('fld', Const(field)))
                    v = T('fmtfield', v, Const(field))
                if isinstance(v, Each):
                    v = v.v
                if spec and not (isinstance(v, Const)):
                    v = T('fmtval', v, typ='builtins.str')
                parts.append(m.to_str(v, node))
            return I.concat(parts)
        except (IndexError, KeyError, ValueError):
            if '**' in kwargs or any(isinstance(a, Each) for a in args):
                return T('fmt', o, *args, typ='builtins.str')
            raise I.PyRaise(Const('format'), 'IndexError', node, m.where(node))
    if name == 'join':
        its = m.iter_items(args[0], node)
        if not its:
            return Const('')
        parts = []
        for j, i in enumerate(its):
            if j:
                parts.append(o)
            if isinstance(i, Each):
                parts.append(T('join', o, m.to_str(i.v, node), typ='builtins.str'))
            else:
                parts.append(m.to_str(i, node) if I.is_strish(i) else i)
        return I.concat(parts) if len(parts) > 1 else parts[0]
    if name in I.STR_METHODS and all(isinstance(a, Const) or isinstance(a, Seq) and all(isinstance(i, Const) for i in a.items) for a in args) and not kwargs:
        try:
            pa = [a.v if isinstance(a, Const) else tuple(i.v for i in a.items) for a in args]
            r = getattr(o.v, name)(*pa)
        except ValueError:
            raise I.PyRaise(Const(name), 'ValueError', node, m.where(node))
        except TypeError:
            return None
        if isinstance(r, list):
            return Seq('list', [Const(x) for x in r], m.loopdepth)
        if isinstance(r, tuple):
            return Seq('tuple', [Const(x) for x in r], m.loopdepth)
        return Const(r)
    if name in ('startswith', 'endswith'):
        return T('mcall', name, I.frozen(o), *args, typ='builtins.bool')
    return T('mcall', name, I.frozen(o), *args, typ='builtins.str' if name in ('replace', 'strip', 'rstrip', 'lstrip', 'translate') else None)
