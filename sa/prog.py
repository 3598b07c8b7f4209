"""Program model: parse every galgebra module of the tree under analysis and
index modules, classes (with MRO), functions and module-level bindings."""
import ast
import os

REPO = os.environ.get('GALGEBRA_TREE', '/repo')
PKG = 'galgebra'


def static_test(e):
    """truth of a test of the interpreter's version (the installed one is recent), or None"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = static_test(e.operand)
        return None if v is None else not v
    if isinstance(e, ast.Name) and e.id == 'TYPE_CHECKING' or isinstance(e, ast.Attribute) and e.attr == 'TYPE_CHECKING':
        return None
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and ast.unparse(e.left) == 'sys.version_info':
        try:
            v = ast.literal_eval(e.comparators[0])
        except ValueError:
            return None
        if isinstance(v, tuple) and v and v[0] == 3 and all(isinstance(x, int) for x in v) and (len(v) < 2 or v[1] < 10):
            return {ast.Gt: True, ast.GtE: True, ast.Lt: False, ast.LtE: False}.get(type(e.ops[0]))
    return None


class AnalysisBroken(Exception):
    """A public anchor vanished or the tree cannot be analysed."""


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.bind = {}
        self.bind_all = {}
        self.star = []

    def __repr__(self):
        return '<module %s>' % self.name


class Binding:
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b


class ClassInfo:
    def __init__(self, name, module, node, prog, outer=None):
        self.name, self.module, self.node, self.prog = name, module, node, prog
        self.members = {}
        self.qual = (outer + '.' if outer else '') + name
        for st in node.body:
            self._member(st)
        self._mro = None

    def _member(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # property setters share the name: keep the getter, remember the setter
            if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in st.decorator_list):
                self.members[st.name + '$set'] = st
                return
            self.members[st.name] = st
        elif isinstance(st, ast.ClassDef):
            self.members[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.members[t.id] = st
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            self.members[e.id] = st
        elif isinstance(st, ast.AnnAssign):
            if isinstance(st.target, ast.Name) and st.value is not None:
                self.members[st.target.id] = st
        elif isinstance(st, (ast.If, ast.Try)):
            for sub in ast.iter_child_nodes(st):
                if isinstance(sub, ast.stmt):
                    self._member(sub)

    @property
    def fq(self):
        return self.module.name + '.' + self.qual

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.prog.resolve_expr(self.module, b)
            out.append(r)
        return out

    def mro(self):
        """linear (depth-first, duplicates removed keeping last) MRO: ClassInfo and external dotted names"""
        if self._mro is None:
            seq = [self]
            for b in self.bases():
                if isinstance(b, ClassInfo):
                    seq += b.mro()
                elif isinstance(b, str):
                    seq.append(b)
            out = []
            for i, c in enumerate(seq):
                if c not in seq[i + 1:]:
                    out.append(c)
            self._mro = out
        return self._mro

    def lookup(self, name):
        """(owner ClassInfo, node) or None"""
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.members:
                return c, c.members[name]
        return None

    def built_attrs(self):
        """attributes assigned on instances by the constructor and the methods it may reach"""
        if getattr(self, '_built', None) is None:
            seen, todo, out = set(), ['__init__', '__new__', '__setattr__', '__getattr__', '__getattribute__', '__setstate__'], set()
            while todo:
                nm = todo.pop()
                if nm in seen:
                    continue
                seen.add(nm)
                for c in self.mro():
                    node = c.members.get(nm) if isinstance(c, ClassInfo) else None
                    if node is None:
                        continue
                    for x in ast.walk(node):
                        if isinstance(x, ast.Attribute):
                            if isinstance(x.ctx, ast.Store):
                                out.add(x.attr)
                            todo.append(x.attr)
                            todo.append('_%s%s' % (c.name.lstrip('_'), x.attr))
                        elif isinstance(x, ast.Name):
                            todo.append(x.id)
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                            out.add(None)
                        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                            out.add(x.value)
            self._built = out
        return self._built

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def __repr__(self):
        return '<class %s>' % self.fq


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.classes = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken('no package directory %s' % base)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as h:
                    src = h.read()
                try:
                    self.modules[rel] = Module(rel, p, src)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (p, e))
        for m in self.modules.values():
            self._index(m, m.tree.body)
        self._const = {}

    # ---- indexing -------------------------------------------------------
    def _index(self, m, body):
        for st in body:
            self._index_stmt(m, st)

    def _put(self, m, name, b):
        m.bind[name] = b
        m.bind_all.setdefault(name, []).append(b)

    def _index_stmt(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self._put(m, st.name, Binding('func', st))
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(st.name, m, st, self)
            self.classes[ci.fq] = ci
            self._put(m, st.name, Binding('class', ci))
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self._put(m, a.asname, Binding('module', a.name))
                else:
                    self._put(m, a.name.split('.')[0], Binding('module', a.name.split('.')[0]))
        elif isinstance(st, ast.ImportFrom):
            mod = self._from_module(m, st)
            for a in st.names:
                if a.name == '*':
                    m.star.append(mod)
                else:
                    self._put(m, a.asname or a.name, Binding('from', mod, a.name))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                self._index_target(m, t, st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            if st.value is not None:
                self._put(m, st.target.id, Binding('assign', st.value))
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            pass
        elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            if isinstance(st, ast.For):
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        self._put(m, n.id, Binding('opaque', st))
            taken = static_test(st.test) if isinstance(st, ast.If) else None
            for f in ('body', 'orelse', 'finalbody'):
                if taken is None or f == ('body' if taken else 'orelse'):
                    self._index(m, getattr(st, f, []) or [])
            for h in getattr(st, 'handlers', []) or []:
                # names bound only when the import fails do not override the normal binding
                saved = dict(m.bind)
                self._index(m, h.body)
                for k, v in saved.items():
                    m.bind[k] = v

    def _index_target(self, m, t, value):
        if isinstance(t, ast.Name):
            self._put(m, t.id, Binding('assign', value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    self._put(m, e.id, Binding('assign', vs[i]) if vs else Binding('opaque', value))

    def _from_module(self, m, st):
        if st.level == 0:
            return st.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    # ---- resolution -----------------------------------------------------
    def resolve_name(self, m, name, seen=()):
        """-> ClassInfo | ('func', module, node) | ('module', name) | ('assign', module, expr) | 'dotted.external' | None"""
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        b = m.bind.get(name)
        if b is None:
            for s in m.star:
                if s in self.modules:
                    r = self.resolve_name(self.modules[s], name, seen)
                    if r is not None:
                        return r
            if m.is_pkg and m.name + '.' + name in self.modules:
                return ('module', m.name + '.' + name)
            return None
        if b.kind == 'class':
            return b.a
        if b.kind == 'func':
            return ('func', m, b.a)
        if b.kind == 'assign':
            return ('assign', m, b.a)
        if b.kind == 'opaque':
            return ('opaque', m, name)
        if b.kind == 'module':
            return ('module', b.a) if b.a in self.modules else b.a
        if b.kind == 'from':
            if b.a in self.modules:
                r = self.resolve_name(self.modules[b.a], b.b, seen)
                if r is None and b.a + '.' + b.b in self.modules:
                    return ('module', b.a + '.' + b.b)
                return r
            if b.a and (b.a + '.' + b.b) in self.modules:
                return ('module', b.a + '.' + b.b)
            return '%s.%s' % (b.a, b.b)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id)
            if r is None:
                return 'builtins.' + e.id
            return r
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if isinstance(r, tuple) and r[0] == 'module' and r[1] in self.modules:
                return self.resolve_name(self.modules[r[1]], e.attr)
            if isinstance(r, str):
                return r + '.' + e.attr
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        return None

    # ---- anchors --------------------------------------------------------
    def module(self, name):
        full = PKG + '.' + name if name else PKG
        if full not in self.modules:
            raise AnalysisBroken('module %s vanished' % full)
        return self.modules[full]

    def cls(self, mod, name):
        r = self.resolve_name(self.module(mod), name)
        if not isinstance(r, ClassInfo):
            raise AnalysisBroken('class %s.%s vanished' % (mod, name))
        return r

    def func(self, mod, name):
        r = self.resolve_name(self.module(mod), name)
        if not (isinstance(r, tuple) and r[0] == 'func'):
            raise AnalysisBroken('function %s.%s vanished' % (mod, name))
        return r

    def all_functions(self):
        """yield (module, class or None, FunctionDef, qualname) for every def, nested ones included"""
        for m in self.modules.values():
            yield from self._walk_funcs(m, None, m.tree.body, '')

    def _walk_funcs(self, m, cls, body, prefix):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + st.name
                yield m, cls, st, q
                yield from self._walk_funcs(m, cls, st.body, q + '.<locals>.')
            elif isinstance(st, ast.ClassDef):
                ci = self.classes.get(m.name + '.' + prefix + st.name) if not prefix else None
                yield from self._walk_funcs(m, ci or cls, st.body, prefix + st.name + '.')
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from self._walk_funcs(m, cls, getattr(st, f, []) or [], prefix)
                for h in getattr(st, 'handlers', []) or []:
                    yield from self._walk_funcs(m, cls, h.body, prefix)
