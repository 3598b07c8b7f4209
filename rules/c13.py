"""C13: every name, attribute and call written in the package refers to something that exists."""
import ast
import builtins

from sa.prog import ClassInfo, PKG
from sa.extsrc import Libs

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__builtins__', '__annotations__', '__dict__'}
# what the documented fields of the package's objects hold
FIELD = {'Ga': 'Ga'}


class Scope:
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.names, self.globals, self.nonlocals = set(), set(), set()


def own(node):
    """nodes of a function / class / module body without those of nested scopes (their defaults and decorators included)"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(reversed(body))
    if isinstance(node, COMP):
        todo = []
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNC) or isinstance(x, ast.ClassDef):
            if isinstance(x, ast.ClassDef):
                kids = x.bases + [k.value for k in x.keywords] + x.decorator_list
            else:
                a = x.args
                kids = a.defaults + [d for d in a.kw_defaults if d is not None] + getattr(x, 'decorator_list', [])
            todo += reversed(kids)
        elif isinstance(x, COMP):
            # its loop variables are its own; an assignment expression binds outside
            todo += [x.generators[0].iter] + [y.target for y in ast.walk(x) if isinstance(y, ast.NamedExpr)]
        else:
            todo += reversed(list(ast.iter_child_nodes(x)))


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def bound(node):
    """names bound in the scope of node"""
    out, gl, nl = set(), set(), set()
    if isinstance(node, FUNC):
        out |= set(params(node))
    for x in own(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split('.')[0]) for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.Global):
            gl |= set(x.names)
        elif isinstance(x, ast.Nonlocal):
            nl |= set(x.names)
        elif type(x).__name__ in ('MatchAs', 'MatchStar') and x.name:
            out.add(x.name)
        elif type(x).__name__ == 'MatchMapping' and x.rest:
            out.add(x.rest)
    return out - gl - nl, gl, nl


class Lint:
    def __init__(self, ck, W):
        self.ck, self.W, self.prog = ck, W, W.prog
        self.libs = Libs()
        self.modnames = {}
        for m in self.prog.modules.values():
            s = bound(m.tree)[0] | BUILTINS
            for f in ast.walk(m.tree):
                if isinstance(f, ast.Global):
                    s |= set(f.names)
            self.modnames[m.name] = s
        # attributes stored on anything whose class is not known
        self.members = {}
        self.loose = set()
        self.own_attrs = {}
        for m, cls, fn, q in self.prog.all_functions():
            slf = self.selfname(cls, fn)
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    if isinstance(x.value, ast.Name) and slf and x.value.id == slf:
                        self.own_attrs.setdefault(cls, set()).add(x.attr)
                    elif isinstance(x.value, ast.Name) and (cls is not None and x.value.id in (cls.name,) or self.is_class(m, x.value.id)):
                        c = self.prog.resolve_name(m, x.value.id)
                        self.own_attrs.setdefault(c if isinstance(c, ClassInfo) else cls, set()).add(x.attr)
                    else:
                        self.loose.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1:
                    if isinstance(x.args[1], ast.Constant):
                        self.loose.add(x.args[1].value)
                    elif isinstance(x.args[1], ast.Attribute) and x.args[1].attr == '__name__':
                        pass          # a descriptor stores under the name of the function it wraps
                    else:
                        self.loose = Everything()
                elif isinstance(x, ast.Attribute) and x.attr == '__dict__':
                    pass
        for m in self.prog.modules.values():
            for x in own(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.loose.add(x.attr)

    def is_class(self, m, n):
        return isinstance(self.prog.resolve_name(m, n), ClassInfo)

    def selfname(self, cls, fn):
        if cls is None or not isinstance(fn, (ast.FunctionDef,)):
            return None
        if fn not in list(cls.members.values()):
            return None
        if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
            return None
        a = fn.args.posonlyargs + fn.args.args
        if fn.name == '__new__':
            return None
        return a[0].arg if a else None

    # ---- members of a class of the package -----------------------------
    def subclasses(self, c):
        return [k for k in self.prog.classes.values() if c in k.mro()]

    def attrs(self, c):
        if c in self.members:
            return self.members[c]
        out = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__mro__', '__bases__', '__annotations__', '__slots__', '__wrapped__'}
        fam = set()
        for k in self.subclasses(c):
            fam |= set(k.mro())
        for k in fam:
            if isinstance(k, ClassInfo):
                if '__getattr__' in k.members or '__getattribute__' in k.members:
                    out = None
                    break
                out |= {n for n in k.members} | self.own_attrs.get(k, set())
                for st in k.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        out.add(st.target.id)
            else:
                if k.startswith('builtins.'):
                    out |= set(dir(getattr(builtins, k[9:], object)))
                    continue
                alias = {'typing.Dict': dict, 'typing.Tuple': tuple, 'typing.List': list, 'typing.OrderedDict': __import__('collections').OrderedDict, 'collections.OrderedDict': __import__('collections').OrderedDict, 'typing.Generic': object, 'abc.ABC': object}
                if k in alias:
                    out |= set(dir(alias[k]))
                    continue
                r = self.libs.dotted(k)
                m = self.libs.members(r) if r else None
                if m is None:
                    out = None
                    break
                out |= m
        self.members[c] = out
        return out

    # ---- scopes ---------------------------------------------------------
    def visible(self, m, chain, name):
        """is the name bound in one of the enclosing scopes? (class scopes only count when innermost)"""
        for i, s in enumerate(reversed(chain)):
            if s.kind == 'class' and i:
                continue
            if name in s.globals:
                break
            if name in s.names:
                return True
        if name in self.modnames[m.name]:
            return True
        if name == '__class__' and any(s.kind == 'class' for s in chain):
            return True
        for st in m.star:
            if st in self.prog.modules:
                if self.visible(self.prog.modules[st], [], name):
                    return True
            else:
                r = self.libs.resolve(st, name)
                if r is not False:
                    return True
        return False

    # ---- types ----------------------------------------------------------
    def ann(self, m, a):
        """class of the package named by an annotation"""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript) and isinstance(a.value, (ast.Name, ast.Attribute)) and (getattr(a.value, 'id', None) or getattr(a.value, 'attr', None)) == 'Optional':
            return self.ann(m, a.slice)
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(m, a)
            if isinstance(r, ClassInfo):
                return r
            n = a.id if isinstance(a, ast.Name) else a.attr
            ks = [k for k in self.prog.classes.values() if k.name == n]
            return ks[0] if len(ks) == 1 and r in (None, 'builtins.' + n) else None
        return None

    def env(self, m, cls, fn):
        """variables of a function whose class is known at every use: never rebound, or bound only by constructor calls"""
        out = {}
        stores = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores.setdefault(x.id, 0)
                stores[x.id] += 1
            elif isinstance(x, FUNC) and x is not fn:
                for p in params(x):
                    stores[p] = stores.get(p, 0) + 1
        s = self.selfname(cls, fn)
        if s and not stores.get(s):
            out[s] = cls
        for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
            if a.annotation is not None and not stores.get(a.arg):
                k = self.ann(m, a.annotation)
                if k is not None:
                    out[a.arg] = k
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stores.get(x.targets[0].id) == 1 and x.targets[0].id not in params(fn):
                if isinstance(x.value, ast.Call):
                    k = self.prog.resolve_expr(m, x.value.func) if isinstance(x.value.func, (ast.Name, ast.Attribute)) else None
                    if isinstance(k, ClassInfo) and not ('__new__' in k.members) and not (isinstance(x.value.func, ast.Name) and x.value.func.id in stores):
                        out[x.targets[0].id] = k
        return out

    def typeof(self, m, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute) and e.attr in FIELD:
            b = self.typeof(m, e.value, env)
            if b is not None and self.attrs(b) is not None and e.attr in self.attrs(b):
                ks = [k for k in self.prog.classes.values() if k.name == FIELD[e.attr]]
                return ks[0] if len(ks) == 1 else None
        return None

    # ---- the walk ---------------------------------------------------------
    def where(self, m, node, q):
        return '%s:%d (%s)' % (m.rel, node.lineno, q.replace('.<locals>', ''))

    def run(self):
        for m in self.prog.modules.values():
            short = m.name[len(PKG) + 1:] or PKG
            self.unit(m, None, m.tree, short, [Scope(m.tree, None, 'module')], {}, [])
            self.imports(m, short)

    def imports(self, m, short):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                mod = self.prog._from_module(m, x)
                for a in x.names:
                    subj = '%s imports %s.%s' % (short, mod, a.name)
                    if a.name == '*':
                        continue
                    if mod in self.prog.modules:
                        if self.visible(self.prog.modules[mod], [], a.name) and a.name not in BUILTINS or a.name in bound(self.prog.modules[mod].tree)[0] or mod + '.' + a.name in self.prog.modules:
                            self.ck.ok('names', subj)
                        else:
                            self.ck.bad('names', subj, self.where(m, x, short), 'module %s has no %s' % (mod, a.name))
                    else:
                        r = self.libs.resolve(mod, a.name) if mod else None
                        if r is False and not self.guarded(m, x):
                            self.ck.bad('names', subj, self.where(m, x, short), 'module %s has no %s' % (mod, a.name))
                        elif r is None:
                            self.ck.ok('names', subj, 'not readable') if False else None
                        else:
                            self.ck.ok('names', subj)

    def guarded(self, m, node):
        """inside a try statement"""
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and any(x is node for b in t.body for x in ast.walk(b)):
                return True
        return False

    def unit(self, m, cls, node, q, chain, env, tests):
        names, gl, nl = bound(node)
        sc = chain[-1]
        sc.names, sc.globals = names, gl
        kinds = {'names': [0, []], 'attributes': [0, []], 'calls': [0, []]}
        self.block(m, cls, node, q, chain, env, kinds)
        if isinstance(node, FUNC) and isinstance(node.body, list):
            self.unbound(m, node, q, kinds)
        for k, (n, bad) in kinds.items():
            if bad:
                seen = set()
                for what, msg, nd in bad:
                    if what in seen:
                        continue
                    seen.add(what)
                    self.ck.bad(k, '%s in %s' % (what, m.rel), self.where(m, nd, q), msg)
            elif n:
                self.ck.ok(k, q, '%d references' % n)

    def block(self, m, cls, node, q, chain, env, kinds):
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self.visit(m, cls, st, q, chain, env, kinds)

    def visit(self, m, cls, x, q, chain, env, kinds):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in x.decorator_list + x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                self.visit(m, cls, d, q, chain, env, kinds)
            inner = chain[-1].kind == 'class'
            c = cls if inner else None
            e = dict(env)
            for p in bound(x)[0]:
                e.pop(p, None)
            e.update(self.env(m, c, x))
            base = q if q != (m.name[len(PKG) + 1:] or PKG) else ''
            self.unit(m, cls, x, (base + '.' if base else '') + ('<locals>.' if chain[-1].kind == 'function' else '') + x.name, chain + [Scope(x, chain[-1], 'function')], e, [])
            return
        if isinstance(x, ast.Lambda):
            for d in x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                self.visit(m, cls, d, q, chain, env, kinds)
            s = Scope(x, chain[-1], 'function')
            s.names = set(params(x)) | bound(x)[0]
            e = {k: v for k, v in env.items() if k not in s.names}
            self.visit(m, cls, x.body, q, chain + [s], e, kinds)
            return
        if isinstance(x, ast.ClassDef):
            for d in x.decorator_list + x.bases + [k.value for k in x.keywords]:
                self.visit(m, cls, d, q, chain, env, kinds)
            c = self.prog.classes.get(m.name + '.' + x.name) if chain[-1].kind == 'module' else None
            self.unit(m, c, x, x.name if chain[-1].kind == 'module' else q + '.' + x.name, chain + [Scope(x, chain[-1], 'class')], {}, [])
            return
        if isinstance(x, COMP):
            s = Scope(x, chain[-1], 'function')
            for g in x.generators:
                s.names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            e = {k: v for k, v in env.items() if k not in s.names}
            for i, g in enumerate(x.generators):
                self.visit(m, cls, g.iter, q, chain if i == 0 else chain + [s], env if i == 0 else e, kinds)
                for t in g.ifs:
                    self.visit(m, cls, t, q, chain + [s], e, kinds)
            for n in ('elt', 'key', 'value'):
                if hasattr(x, n):
                    self.visit(m, cls, getattr(x, n), q, chain + [s], e, kinds)
            return
        if isinstance(x, ast.Try):
            # a name or attribute error may be expected here
            hs = [n for h in x.handlers for n in (['*'] if h.type is None else [y.id for y in ast.walk(h.type) if isinstance(y, ast.Name)])]
            if {'*', 'Exception', 'BaseException', 'NameError', 'AttributeError', 'TypeError', 'ImportError', 'ModuleNotFoundError'} & set(hs):
                quiet = {k: [0, []] for k in kinds}
                for st in x.body:
                    self.visit(m, cls, st, q, chain, env, quiet)
            else:
                for st in x.body:
                    self.visit(m, cls, st, q, chain, env, kinds)
            for h in x.handlers:
                if h.type is not None:
                    self.visit(m, cls, h.type, q, chain, env, kinds)
                for st in h.body:
                    self.visit(m, cls, st, q, chain, env, kinds)
            for st in x.orelse + x.finalbody:
                self.visit(m, cls, st, q, chain, env, kinds)
            return
        if isinstance(x, ast.If) or isinstance(x, ast.IfExp):
            self.visit(m, cls, x.test, q, chain, env, kinds)
            if self.probes(x.test):
                kinds = {k: [0, []] for k in kinds}
            e = dict(env)
            for n, k in self.narrow(m, x.test):
                e[n] = k
            for n in list(e):
                if n not in env or e[n] is not env[n]:
                    if any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for s in (x.body if isinstance(x.body, list) else [x.body]) for y in ast.walk(s)):
                        del e[n]
            for st in x.body if isinstance(x.body, list) else [x.body]:
                self.visit(m, cls, st, q, chain, e, kinds)
            # the other branch: what the test says about a variable no longer holds there
            e = {n: k for n, k in env.items() if not self.mentions(x.test, n)}
            for st in x.orelse if isinstance(x.orelse, list) else [x.orelse]:
                self.visit(m, cls, st, q, chain, e, kinds)
            return
        if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
            e = dict(env)
            for v in x.values:
                self.visit(m, cls, v, q, chain, e, kinds)
                for n, k in self.narrow(m, v):
                    e[n] = k
            return
        if isinstance(x, ast.AnnAssign):
            if x.value is not None:
                self.visit(m, cls, x.value, q, chain, env, kinds)
            self.visit(m, cls, x.target, q, chain, env, kinds)
            return
        if isinstance(x, ast.arg):
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
            kinds['names'][0] += 1
            if not self.visible(m, chain, x.id):
                kinds['names'][1].append((x.id, 'the name %s is not defined' % x.id, x))
            return
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            self.attribute(m, cls, x, chain, env, kinds)
        if isinstance(x, ast.Call):
            self.call(m, cls, x, chain, env, kinds)
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
            self.percent(x, kinds)
        for y in ast.iter_child_nodes(x):
            self.visit(m, cls, y, q, chain, env, kinds)

    @staticmethod
    def probes(t):
        return any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('hasattr', 'callable', 'getattr') for y in ast.walk(t)) or \
            any(isinstance(y, ast.Attribute) and y.attr in ('version_info', 'platform') for y in ast.walk(t))

    @staticmethod
    def mentions(t, n):
        return any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(t))

    def narrow(self, m, t):
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return [z for v in t.values for z in self.narrow(m, v)]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            k = self.prog.resolve_expr(m, t.args[1]) if isinstance(t.args[1], (ast.Name, ast.Attribute)) else None
            return [(t.args[0].id, k if isinstance(k, ClassInfo) else None)]
        return []

    # ---- rules ------------------------------------------------------------
    def local(self, chain, name):
        """is the name bound in a function or class scope?"""
        for i, s in enumerate(reversed(chain)):
            if s.kind == 'module' or name in s.globals:
                return False
            if s.kind == 'class' and i:
                continue
            if name in s.names:
                return True
        return False

    def static(self, m, e, chain):
        """what a (dotted) name refers to when no function rebinds it"""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or self.local(chain, root.id):
            return None
        if len(m.bind_all.get(root.id, ())) != 1 and root.id in m.bind_all:
            return None
        return self.prog.resolve_expr(m, e)

    def attribute(self, m, cls, x, chain, env, kinds):
        # of a module
        if isinstance(x.value, (ast.Name, ast.Attribute)):
            r = self.static(m, x.value, chain)
            if isinstance(r, tuple) and r[0] == 'module' and r[1] in self.prog.modules:
                t = self.prog.modules[r[1]]
                kinds['attributes'][0] += 1
                if not (x.attr in bound(t.tree)[0] or self.visible(t, [], x.attr) and x.attr not in BUILTINS or r[1] + '.' + x.attr in self.prog.modules or x.attr.startswith('__')):
                    kinds['attributes'][1].append(('%s.%s' % (r[1], x.attr), 'module %s has no attribute %s' % (r[1], x.attr), x))
                return
            if isinstance(r, str) and not r.startswith('builtins.') and self.libs.path(r):
                kinds['attributes'][0] += 1
                if self.libs.resolve(r, x.attr) is False:
                    kinds['attributes'][1].append(('%s.%s' % (r, x.attr), 'module %s has no attribute %s' % (r, x.attr), x))
                return
            if isinstance(r, str) and r.startswith('builtins.') and isinstance(x.value, ast.Name) and x.value.id in BUILTINS and x.value.id not in m.bind and isinstance(getattr(builtins, x.value.id, None), type):
                kinds['attributes'][0] += 1
                if not hasattr(getattr(builtins, x.value.id), x.attr):
                    kinds['attributes'][1].append(('%s.%s' % (x.value.id, x.attr), '%s has no attribute %s' % (x.value.id, x.attr), x))
                return
            if isinstance(r, ClassInfo):
                at = self.attrs(r)
                if at is not None:
                    kinds['attributes'][0] += 1
                    if x.attr not in at and x.attr not in self.loose and x.attr not in dir(type):
                        kinds['attributes'][1].append(('%s.%s' % (r.name, x.attr), 'class %s has no attribute %s' % (r.name, x.attr), x))
                return
        k = self.typeof(m, x.value, env)
        if k is not None:
            at = self.attrs(k)
            if at is not None:
                kinds['attributes'][0] += 1
                if x.attr not in at and x.attr not in self.loose:
                    kinds['attributes'][1].append(('%s.%s' % (k.name, x.attr), 'objects of class %s have no attribute %s' % (k.name, x.attr), x))

    DECOS = {'staticmethod', 'classmethod'}

    def fits(self, fn, call, drop, name):
        """None when the call fits the signature, otherwise the reason; drop: parameters bound implicitly"""
        a = fn.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos][drop:]
        npos = len(call.args)
        starred = any(isinstance(z, ast.Starred) for z in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        if not starred and npos > len(names) and a.vararg is None:
            return 'takes at most %d positional arguments, %d are given' % (len(names), npos)
        kwn = [k.arg for k in call.keywords if k.arg]
        ponly = [p.arg for p in a.posonlyargs]
        allowed = [n for n in names if n not in ponly] + [p.arg for p in a.kwonlyargs]
        if a.kwarg is None:
            for k in kwn:
                if k not in allowed:
                    return 'has no parameter %s' % k
        if not starred:
            for k in kwn:
                if k in names[:npos] and k not in ponly:
                    return 'gets two values for %s' % k
        if not starred and not dstar:
            need = names[:len(names) - len(a.defaults)] if len(a.defaults) <= len(names) else []
            for i, p in enumerate(need):
                if i >= npos and p not in kwn:
                    return 'is not given its parameter %s' % p
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and p.arg not in kwn:
                    return 'is not given its parameter %s' % p.arg
        return None

    def kind(self, fn):
        """how a method binds: 0 plain, 'static', 'class', None unknown decorator"""
        k = 0
        for d in fn.decorator_list:
            n = d.id if isinstance(d, ast.Name) else None
            if n == 'staticmethod':
                k = 'static'
            elif n == 'classmethod':
                k = 'class'
            elif n == 'abstractmethod' or isinstance(d, ast.Attribute) and d.attr == 'abstractmethod':
                pass
            else:
                return None
        return k

    def call(self, m, cls, x, chain, env, kinds):
        f = x.func
        cand = []           # (FunctionDef, number of implicit parameters)
        name = None
        r = self.static(m, f, chain) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if isinstance(f, ast.Name) and f.id in BUILTINS and f.id not in m.bind and not self.local(chain, f.id):
            r = None
        if isinstance(r, tuple) and r[0] == 'func':
            if r[2].decorator_list:
                return
            if len(r[1].bind_all.get(r[2].name, ())) > 1:
                return
            cand, name = [(r[2], 0)], r[2].name
        elif isinstance(r, ClassInfo):
            c = self.ctor(r)
            if c is None:
                return
            cand, name = [c], r.name
        elif isinstance(r, str) and not r.startswith('builtins.'):
            z = self.libs.dotted(r)
            if z is False and '.' in r and isinstance(f, ast.Name):
                return
            if not z or z[0] != 'func' or z[2].decorator_list:
                return
            cand, name = [(z[2], 0)], r
        elif isinstance(f, ast.Attribute):
            k, how = None, 'obj'
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and not f.value.args and cls is not None:
                for b in cls.mro()[1:]:
                    if isinstance(b, str):
                        return
                    if f.attr in b.members:
                        k = b
                        break
                ks = [k] if k is not None else []
            else:
                k = self.static(m, f.value, chain) if isinstance(f.value, (ast.Name, ast.Attribute)) else None
                if isinstance(k, ClassInfo):
                    how = 'cls'
                    ks = [k]
                else:
                    k = self.typeof(m, f.value, env)
                    ks = self.subclasses(k) if k is not None else []
            for c in ks:
                d = c.lookup(f.attr)
                if d is None:
                    if how == 'obj' and c is not k:
                        continue
                    return
                if not isinstance(d[1], ast.FunctionDef):
                    return
                b = self.kind(d[1])
                if b is None:
                    return
                if f.attr in self.loose or any(f.attr in self.own_attrs.get(z, ()) for z in c.mro() if isinstance(z, ClassInfo)):
                    return
                cand.append((d[1], 0 if b == 'static' or how == 'cls' and b == 0 else 1))
            name = '%s.%s' % (k.name, f.attr) if isinstance(k, ClassInfo) else f.attr
        if not cand:
            return
        kinds['calls'][0] += 1
        why = [self.fits(fn, x, d, name) for fn, d in cand]
        if all(why):
            kinds['calls'][1].append((name, 'the call of %s %s' % (name, why[0]), x))

    def ctor(self, c):
        for k in c.mro():
            if isinstance(k, str):
                return None
            if any(kw.arg == 'metaclass' for kw in k.node.keywords):
                return None
            n, i = k.members.get('__new__'), k.members.get('__init__')
            if n is not None:
                return None
            if i is not None:
                if not isinstance(i, ast.FunctionDef) or i.decorator_list:
                    return None
                # a base further up may define __new__
                if any(isinstance(z, ClassInfo) and '__new__' in z.members for z in c.mro()):
                    return None
                return (i, 1)
        return None

    def unbound(self, m, fn, q, kinds):
        """a local variable read where no binding of it can have run"""
        names, gl, nl = bound(fn)
        loc = names - set(params(fn))
        binds, uses = {}, []

        def go(x, loops):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                binds.setdefault(x.name, []).append((x, loops))
                return
            if isinstance(x, ast.Lambda) or isinstance(x, COMP):
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr):
                        binds.setdefault(y.target.id, []).append((x, loops))
                if isinstance(x, COMP):
                    go(x.generators[0].iter, loops)
                return
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    binds.setdefault(a.asname or a.name.split('.')[0], []).append((x, loops))
            if isinstance(x, ast.ExceptHandler) and x.name:
                binds.setdefault(x.name, []).append((x, loops))
            if type(x).__name__ in ('MatchAs', 'MatchStar', 'MatchMapping'):
                n = getattr(x, 'name', None) or getattr(x, 'rest', None)
                if n:
                    binds.setdefault(n, []).append((x, loops))
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    binds.setdefault(x.id, []).append((x, loops))
                elif x.id in loc:
                    uses.append((x, loops))
            if isinstance(x, (ast.For, ast.AsyncFor)):
                go(x.iter, loops)
                go(x.target, loops + (x,))
                for b in x.body:
                    go(b, loops + (x,))
                for b in x.orelse:
                    go(b, loops)
                return
            if isinstance(x, ast.While):
                go(x.test, loops + (x,))
                for b in x.body:
                    go(b, loops + (x,))
                for b in x.orelse:
                    go(b, loops)
                return
            if isinstance(x, ast.AugAssign):
                go(x.value, loops)
                if isinstance(x.target, ast.Name):
                    if x.target.id in loc:
                        uses.append((x.target, loops))
                    go(x.target, loops)
                else:
                    go(x.target, loops)
                return
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                if x.value is not None:
                    go(x.value, loops)
                for t in x.targets if isinstance(x, ast.Assign) else [x.target] if x.value is not None else []:
                    go(t, loops)
                return
            for y in ast.iter_child_nodes(x):
                go(y, loops)
        order = []
        for st in fn.body:
            go(st, ())
        # position of a binding: where its statement ends for plain assignments
        for u, lu in uses:
            bs = binds.get(u.id, [])
            if not bs:
                continue
            kinds['names'][0] += 1
            if all((b.lineno, b.col_offset) > (u.lineno, u.col_offset) or b is u for b, lb in bs) and not any(set(lu) & set(lb) for b, lb in bs if b is not u) and \
                    all(self.after(fn, u, b) for b, lb in bs):
                kinds['names'][1].append((u.id, 'the variable %s is read before anything is assigned to it' % u.id, u))

    def after(self, fn, u, b):
        """does the binding b run after the use u? (not when they are parts of one simple statement, except in an update)"""
        for st in ast.walk(fn):
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                inb = any(y is b for y in ast.walk(st))
                if inb and any(y is u for y in ast.walk(st)):
                    return st.value is not None and any(y is u for y in ast.walk(st.value))
        return True

    def percent(self, x, kinds):
        """'...%s...' % (a, b)"""
        if not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and isinstance(x.right, ast.Tuple)):
            return
        import re
        if any(isinstance(e, ast.Starred) for e in x.right.elts):
            return
        conv = re.findall(r'%(\([^)]*\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', x.left.value)
        if any(c[0] or '*' in (c[1], c[2]) for c in conv):
            return
        n = sum(1 for c in conv if c[3] != '%')
        kinds['calls'][0] += 1
        if n != len(x.right.elts):
            kinds['calls'][1].append(('the format %r' % x.left.value[:40], 'a format with %d fields is given %d values' % (n, len(x.right.elts)), x))


class Everything:
    def add(self, x):
        pass

    def __contains__(self, x):
        return True


def run(ck, W):
    ck.rule('names', 'every name is bound in an enclosing scope, the module or the builtins, and imported names exist where they are imported from')
    ck.rule('attributes', 'every attribute of a module, a class or an object whose class is known exists')
    ck.rule('calls', 'every call with a known callee fits its signature')
    L = Lint(ck, W)
    L.run()
    return ck.finish('Scope analysis of every module, class body and function of the package; class members collected over the inheritance graph, library classes and functions read from their installed source.', min_decided=100)
