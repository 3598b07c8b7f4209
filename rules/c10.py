"""C10: function forms and deprecated names are equivalent to the operation they stand for."""
import ast
from sa.vals import *
from sa.vals import V
from sa.interp import Interp, PyRaise, Frame
from sa.gamodel import *
from sa.judge import compare, facts_of

# function -> (parameters, method, receiver, arguments of the method by parameter)
FUNCS = {
    'dual': ('A', 'dual', ()), 'undual': ('A', 'undual', ()), 'even': ('A', 'even', ()), 'odd': ('A', 'odd', ()),
    'g_invol': ('A', 'g_invol', ()), 'exp': ('A', 'exp', ('hint',)), 'grade': ('A', 'grade', ('r',)), 'inv': ('A', 'inv', ()),
    'shirokov_inverse': ('A', 'shirokov_inverse', ()), 'hitzer_inverse': ('A', 'hitzer_inverse', ()), 'qform': ('A', 'qform', ()),
    'norm2': ('A', 'norm2', ('hint',)), 'norm': ('A', 'norm', ('hint',)), 'mag2': ('A', 'mag2', ()), 'mag': ('A', 'mag', ()),
    'proj': ('A', 'project_in_blade', ('B',)), 'rot': ('A', 'rotate_multivector', ('itheta', 'hint')), 'refl': ('A', 'reflect_in_blade', ('B',)),
    'rev': ('A', 'rev', ()), 'ccon': ('A', 'ccon', ()), 'scalar': ('A', 'scalar', ()), 'sp': ('A', 'sp', ('B', 'switch')),
}
ORDER = {'proj': ('B', 'A'), 'rot': ('itheta', 'A', 'hint'), 'refl': ('B', 'A')}
MVARGS = {'B', 'itheta', 'A'}
STRVALS = {'hint': ['+', '-', '0'], 'switch': ['', 'rev'], 'r': [0, 1, 3]}
DEFAULT = {('exp', 'hint'): '-', ('grade', 'r'): 0, ('norm2', 'hint'): '0', ('norm', 'hint'): '0', ('rot', 'hint'): '-', ('sp', 'switch'): ''}
ALIASES = {
    'Ga': {
        'E()': 'ga.e', 'I()': 'ga.i', 'mv_I': 'ga.e', 'X()': 'ga.coord_vec', 'lt_coords': 'ga.coords', 'lt_x': 'ga.coord_vec',
        'blades_lst': 'list(ga.blades.flat[1:])', 'bases_lst': 'list(ga.bases.flat[1:])', 'indexes_lst': 'list(ga.indexes.flat[1:])',
        'indexes_to_bases': 'ga.indexes_to_bases_dict.items()', 'indexes_to_blades': 'ga.indexes_to_blades_dict.items()',
        'bases_to_indexes': 'ga.indexes_to_bases_dict.inverse.items()', 'blades_to_indexes': 'ga.indexes_to_blades_dict.inverse.items()',
        'bases_to_indexes_dict': 'ga.indexes_to_bases_dict.inverse', 'blades_to_indexes_dict': 'ga.indexes_to_blades_dict.inverse',
        'mul_table_dict': 'ga.mul.table_dict', 'wedge_table_dict': 'ga.wedge.table_dict', 'dot_table_dict': 'ga.hestenes_dot.table_dict',
        'left_contract_table_dict': 'ga.left_contract.table_dict', 'right_contract_table_dict': 'ga.right_contract.table_dict',
        'geometric_product_basis_blades((b1, b2))': 'ga.mul.of_basis_blades(b1, b2)',
        'wedge_product_basis_blades((b1, b2))': 'ga.wedge.of_basis_blades(b1, b2)',
        "dot_product_basis_blades((b1, b2), '|')": 'ga.hestenes_dot._of_basis_blades_ortho(b1, b2)',
        "dot_product_basis_blades((b1, b2), '<')": 'ga.left_contract._of_basis_blades_ortho(b1, b2)',
        "dot_product_basis_blades((b1, b2), '>')": 'ga.right_contract._of_basis_blades_ortho(b1, b2)',
        "non_orthogonal_dot_product_basis_blades((b1, b2), '|')": 'ga.hestenes_dot._of_basis_blades_non_ortho(b1, b2)',
        "non_orthogonal_dot_product_basis_blades((b1, b2), '<')": 'ga.left_contract._of_basis_blades_non_ortho(b1, b2)',
        "non_orthogonal_dot_product_basis_blades((b1, b2), '>')": 'ga.right_contract._of_basis_blades_non_ortho(b1, b2)',
        'basic_mul_table_dict': 'ga.basic_mul.table_dict', 'basic_mul_table': 'list(ga.basic_mul.table_dict.items())',
        'basic_mul_keys': 'list(ga.basic_mul.table_dict.keys())', 'basic_mul_values': 'list(ga.basic_mul.table_dict.values())',
        'non_orthogonal_bases_products((b1, b2))': 'ga.basic_mul.of_basis_bases(b1, b2)',
        'base_expansion': 'list(ga.base_expansion_dict.items())', 'blade_expansion': 'list(ga.blade_expansion_dict.items())',
        'grads()': '(ga.grad, ga.rgrad)', 'pdop(x)': 'dop.Pdop(x)', 'sdop(x)': 'dop.Sdop(x)',
        'lt(x)': 'lt.Lt(x, ga=ga)', 'Mlt(x)': 'lt.Mlt(x, ga)', 'dop(x, y)': 'mv.Dop(x, y, ga=ga)', 'dop(x, y, cmpflg=True)': 'mv.Dop(x, y, ga=ga, cmpflg=True)',
    },
    'Lt': {'coords': 'L.Ga.coords', 'X': 'L.Ga.coord_vec', 'setup(ga)': '(ga.coords, ga.coord_vec)'},
    'Mlt': {'extact_basis_indexes(ga)': 'ga.basis_super_scripts'},
}
OLD = {'pdop(x)', 'sdop(x)', 'lt(x)', 'Mlt(x)', 'dop(x, y)', 'dop(x, y, cmpflg=True)'}


class MethodHooks(MvHooks):
    """the methods of Mv are uninterpreted operations of their bound arguments"""

    def call(self, m, f, args, kw, node):
        q = self.qual(f)
        if q and q.startswith('Mv.') and not q.startswith('Mv.__') and isinstance(f, Bound) and is_mv(self.W, f.self_):
            b = self.args_of(m, f, args, kw, node)
            if b is not None:
                ps = [p.arg for p in f.fn.node.args.args][1:]
                return T('method', q[3:], f.self_, *[b[p] for p in ps], typ=self.W.Mv)
        return super().call(m, f, args, kw, node)


class AliasHooks(GaHooks):
    """constructors and product tables are uninterpreted"""

    def call(self, m, f, args, kw, node):
        if isinstance(f, Cls) and f.ci in (self.W.Dop, self.W.Sdop, self.W.Pdop, self.W.Lt, self.W.Mlt):
            k = dict(kw)
            fn = f.ci.lookup('__init__')
            return T('new', f.ci.name, *args, *[x for n in sorted(k) for x in (Const(n), k[n])], typ=f.ci)
        return super().call(m, f, args, kw, node)

    def getattr(self, m, o, name, node):
        if is_ga(self.W, o) and name not in o.fields and name in (
                'e', 'i', 'coords', 'coord_vec', 'mul', 'wedge', 'hestenes_dot', 'left_contract', 'right_contract', 'basic_mul', 'blades', 'bases',
                'indexes', 'indexes_to_bases_dict', 'indexes_to_blades_dict', 'blade_expansion_dict', 'base_expansion_dict', 'basis_super_scripts', 'grad', 'rgrad'):
            if name.endswith('_expansion_dict'):
                return Dct([], T('attr', o, name))
            return T('attr', o, name)
        if is_ga(self.W, o):
            return None
        return super().getattr(m, o, name, node)


def norm_new(v):
    """constructor calls with the defaults and keyword spelling removed"""
    return v


def run(ck, W):
    ck.rule('function', 'the value of the function form is the value of the method it stands for, receiver and arguments in their documented places')
    ck.rule('option', 'every option of the function form has an effect on its value')
    ck.rule('reject', 'the function form raises for an argument which is not a multivector')
    ck.rule('alias', 'a deprecated or shorthand name gives the value of the expression it stands for')
    mod = W.Mv.module
    for fn, (recv, meth, margs) in FUNCS.items():
        if W.prog.func('mv', fn) is None or W.Mv.lookup(meth) is None:
            continue
        params = ORDER.get(fn, (recv,) + margs)
        opt = [p for p in params if (fn, p) in DEFAULT]
        variants = [{}]
        for p in opt:
            variants = variants + [dict(variants[0], **{p: v}) for v in STRVALS[p]]
        for var in variants:
            for style in ('positional', 'keyword'):
                if style == 'keyword' and not var:
                    continue
                subj = '%s(%s)%s' % (fn, ', '.join([p for p in params if p not in DEFAULT and (fn, p) not in DEFAULT] + ['%s=%r' % kv for kv in var.items()]), ' by position' if var and style == 'positional' else '')
                g = {}

                def args_for(W_):
                    ga = W.ga('ga')
                    g['ga'] = ga
                    vals = {p: W.mv(p, ga) for p in params if (fn, p) not in DEFAULT}
                    return vals

                def entry(m):
                    vals = args_for(W)
                    pos = [vals[p] for p in params if p in vals]
                    kw = {}
                    if var:
                        for p in var:
                            if style == 'keyword':
                                kw[p] = Const(var[p])
                            else:
                                pos.append(Const(var[p]))
                    return m.call(m.module_name(mod, fn), pos, kw, None)

                def ref(m):
                    vals = args_for(W)
                    a = []
                    for p in margs:
                        a.append(vals[p] if p in vals else Const(var.get(p, DEFAULT.get((fn, p)))))
                    return m.call_method(vals[recv], meth, a, {}, None)
                I = ck.use(Interp(W.prog, MethodHooks(W)))
                J = ck.use(Interp(W.prog, MethodHooks(W)))
                compare_traces(ck, W, 'function', subj, I.run(entry), J.run(ref))
        # an option of the method is not ignored by the function form
        for p in opt:
            for style in ('positional', 'keyword'):
                I = ck.use(Interp(W.prog, MethodHooks(W)))

                def entry(m):
                    ga = W.ga('ga')
                    pos = [W.mv(q, ga) for q in params if (fn, q) not in DEFAULT]
                    o = T('option', p, typ='builtins.str')
                    return m.call(m.module_name(mod, fn), pos + ([o] if style == 'positional' else []), {p: o} if style == 'keyword' else {}, None)
                subj = '%s of %s, %s' % (p, fn, style)
                tt = I.run(entry)
                if any(t.kind != 'return' for t in tt):
                    ck.undecided('option', subj, str([t.exc for t in tt]))
                elif any(mentions(t.value) or any(mentions(c) for c, _ in t.facts) for t in tt):
                    ck.ok('option', subj, 'the value depends on it')
                else:
                    ck.bad('option', subj, tt[0].where, 'the value %s does not depend on the option' % short(tt[0].value), facts_of(tt[0]))
        # non-multivectors
        for what, mk in (('expression', lambda: T('s', typ=EXPR)), ('number', lambda: Const(3))):
            if fn == 'exp':
                continue
            I = ck.use(Interp(W.prog, MethodHooks(W)))

            def entry(m):
                ga = W.ga('ga')
                return m.call(m.module_name(mod, fn), [mk() if p == recv else W.mv(p, ga) for p in params if (fn, p) not in DEFAULT], {}, None)
            subj = '%s of %s' % (fn, what)
            for t in I.run(entry):
                if t.kind == 'return':
                    ck.bad('reject', subj, t.where, 'returns %s for an argument that is not a multivector' % short(t.value), facts_of(t))
                elif t.kind == 'raise' and t.exc in ('AttributeError', 'NameError', 'UnboundLocalError'):
                    ck.bad('reject', subj, t.where, 'fails with %s' % t.exc)
                elif t.kind == 'raise':
                    ck.ok('reject', subj, t.exc)
                else:
                    ck.undecided('reject', subj, t.exc)
    aliases(ck, W)
    return ck.finish('Value numbering: every function form and alias is interpreted with the methods (or tables, constructors) as uninterpreted operations, '
                     'and its value is compared with that of the operation it stands for.', min_decided=3)


def compare_traces(ck, W, rule, subj, got, exp):
    e = [t for t in exp if t.kind == 'return']
    if len(e) != 1 or len(exp) != 1:
        ck.undecided(rule, subj, 'the operation itself has %d paths' % len(exp))
        return
    e = e[0].value
    for t in got:
        if t.kind == 'raise':
            ck.bad(rule, subj, t.where, 'raises %s' % t.exc, facts_of(t))
        elif t.kind != 'return':
            ck.undecided(rule, subj, t.exc)
        elif isinstance(t.value, V) and key_of(t.value) == key_of(e):
            ck.ok(rule, subj, short(e))
        elif isinstance(t.value, Obj) and isinstance(e, Obj) and t.value.name == e.name:
            ck.ok(rule, subj, short(e))
        elif same_vocabulary(t.value, e):
            ck.bad(rule, subj, t.where, 'gives %s, it stands for %s' % (short(t.value), short(e)), facts_of(t))
        else:
            ck.undecided(rule, subj, 'value %s, expected %s' % (short(t.value), short(e)))


def mentions(v, seen=None):
    """does the option occur in the value?"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, T):
        return v.op == 'option' or any(mentions(a, seen) for a in v.args)
    if isinstance(v, (Seq, tuple, list)):
        return any(mentions(a, seen) for a in (v.items if isinstance(v, Seq) else v))
    if isinstance(v, Each):
        return mentions(v.v, seen)
    if isinstance(v, Obj):
        return any(mentions(a, seen) for a in v.fields.values())
    if isinstance(v, Dct):
        return any(mentions(a, seen) for i in v.items for a in i[:2]) or mentions(v.open, seen)
    return False


def key_of(v):
    if isinstance(v, Seq):
        return ('seq',) + tuple(key_of(x) for x in v.items)
    if isinstance(v, Dct):
        return ('dct', tuple((key_of(i[0]), key_of(i[1])) for i in v.items), v.open and key_of(v.open))
    if isinstance(v, Each):
        return ('each', key_of(v.v))
    return v.key()


def heads(v):
    if isinstance(v, T):
        if v.op in ('method', 'attr', 'new'):
            return {v.op}
        if v.op in ('mcall', 'call', 'getitem', 'item', 'slice', 'elem'):
            return {'attr'} | (heads(v.args[0]) if v.args and isinstance(v.args[0], T) else set())
        if v.op in ('gp', 'wedge', 'hd', 'lc', 'rc', 'sp', 'neg', '+', '-', '*', 'rev', 'even', 'odd', 'ginv', 'grade', 'scal'):
            return {'prod'}
    if isinstance(v, Seq):
        r = set()
        for x in v.items:
            r |= heads(x.v if isinstance(x, Each) else x)
        return r
    if isinstance(v, Const):
        return {'const'}
    return set()


def same_vocabulary(a, b):
    """both values are built from the same kind of operation: a difference is a difference"""
    x, y = heads(a), heads(b)
    return bool(x) and bool(y) and (x == y or x == {'const'})


def aliases(ck, W):
    env = {'b1': T('b1', typ=EXPR), 'b2': T('b2', typ=EXPR), 'x': T('x'), 'y': T('y')}
    for cn, tab in ALIASES.items():
        cls = getattr(W, cn)
        for al, ref in tab.items():
            nm = al.split('(')[0]
            if cls.lookup(nm) is None:
                continue

            def ev(m, src):
                ga = W.ga('ga')
                ga.fields['coords'] = T('coords', typ='builtins.list')
                fr = Frame(W.Ga.module)
                fr.vars.update(env)
                fr.vars['ga'] = ga
                fr.vars['L'] = W.lt('L', ga) if cn != 'Mlt' else W.mlt('L', ga)
                return m.eval(ast.parse(src, mode='eval').body, fr)
            recv = {'Ga': 'ga', 'Lt': 'L', 'Mlt': 'L'}[cn]
            I = ck.use(Interp(W.prog, AliasHooks(W)))
            J = ck.use(Interp(W.prog, AliasHooks(W)))
            compare_traces(ck, W, 'alias', '%s.%s' % (cn, al), I.run(lambda m: ev(m, '%s.%s' % (recv, al))), J.run(lambda m: ev(m, ref)))
