"""Reads the sources of installed libraries (never imports them): does a dotted name exist, what is its signature,
what are the members of a class."""
import ast
import glob
import os

ROOTS = sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + [os.path.dirname(os.__file__)]


class Libs:
    def __init__(self):
        self.trees = {}
        self.binds = {}
        self.busy = set()

    def path(self, mod):
        p = mod.replace('.', os.sep)
        for r in ROOTS:
            for c in (os.path.join(r, p, '__init__.py'), os.path.join(r, p + '.py')):
                if os.path.isfile(c):
                    return c
        return None

    def bind(self, mod):
        """name -> list of (kind, ...) bound at module level, or None when the module has no readable source"""
        if mod in self.binds:
            return self.binds[mod]
        p = self.path(mod)
        if p is None:
            self.binds[mod] = None
            return None
        try:
            tree = ast.parse(open(p, encoding='utf-8').read())
        except (SyntaxError, UnicodeDecodeError):
            self.binds[mod] = None
            return None
        pkg = mod if p.endswith('__init__.py') else mod.rpartition('.')[0]
        out = {'names': {}, 'star': [], 'dynamic': False}
        self.binds[mod] = out

        def put(n, b):
            out['names'].setdefault(n, []).append(b)

        def target(t, v):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    put(x.id, ('value', v if x is t else None))

        def go(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    put(st.name, ('func', mod, st))
                    if st.name == '__getattr__':
                        out['dynamic'] = True
                elif isinstance(st, ast.ClassDef):
                    put(st.name, ('class', mod, st))
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        put(a.asname or a.name.split('.')[0], ('module', a.name if a.asname else a.name.split('.')[0]))
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ''
                    if st.level:
                        parts = pkg.split('.')
                        parts = parts[:len(parts) - (st.level - 1)]
                        base = '.'.join(parts + ([st.module] if st.module else []))
                    for a in st.names:
                        if a.name == '*':
                            out['star'].append(base)
                        else:
                            put(a.asname or a.name, ('from', base, a.name))
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        target(t, st.value)
                elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
                    target(st.target, st.value)
                else:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('globals', 'exec', 'setattr'):
                            out['dynamic'] = True
                    if isinstance(st, (ast.For, ast.With)):
                        for x in ast.walk(st):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                put(x.id, ('value', None))
                    for f in ('body', 'orelse', 'finalbody'):
                        go([s for s in getattr(st, f, None) or [] if isinstance(s, ast.stmt)])
                    for h in getattr(st, 'handlers', None) or []:
                        go(h.body)
        go(tree.body)
        return out

    def lookup(self, mod, name, seen=()):
        """bindings of mod.name: a list, [] when there is certainly none, None when it cannot be told"""
        if (mod, name) in seen:
            return []
        b = self.bind(mod)
        if b is None:
            return None
        if name in b['names']:
            return b['names'][name]
        if self.path(mod + '.' + name):
            return [('module', mod + '.' + name)]
        if name in ('__name__', '__file__', '__doc__', '__path__', '__version__', '__package__', '__spec__', '__dict__', '__all__'):
            return [('value', None)]
        unk = b['dynamic']
        for s in b['star']:
            r = self.lookup(s, name, seen + ((mod, name),))
            if r is None:
                unk = True
            elif r:
                return r
        return None if unk else []

    def resolve(self, mod, name, depth=0):
        """('func', mod, node) | ('class', mod, node) | ('module', name) | ('value',) | None unknown | False does not exist"""
        r = self.lookup(mod, name)
        if r is None or depth > 12:
            return None
        if not r:
            return False
        if len(r) > 1 and len({x[:2] for x in r if x[0] in ('func', 'class', 'from')}) != 1 or any(x[0] == 'value' for x in r) and len(r) > 1:
            return None
        x = r[0] if len(r) == 1 else None
        if x is None:
            return None
        if x[0] == 'from':
            if self.bind(x[1]) is None:
                return None
            return self.resolve(x[1], x[2], depth + 1)
        if x[0] == 'value':
            return ('value', x[1], mod)
        return x

    def dotted(self, d):
        """resolve 'a.b.c'"""
        parts = d.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            if self.path(mod):
                cur = self.resolve(mod, parts[k])
                for p in parts[k + 1:]:
                    if not cur:
                        return cur
                    if cur[0] == 'module':
                        cur = self.resolve(cur[1], p)
                    else:
                        return None
                return cur
        return None

    def base(self, mod, e):
        """resolve a base class expression inside a library module"""
        if isinstance(e, ast.Name):
            r = self.resolve(mod, e.id)
            if r is False:
                return ('builtin', e.id)
            return r
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = self.resolve(mod, e.value.id)
            if r and r[0] == 'module':
                return self.resolve(r[1], e.attr)
        if isinstance(e, ast.Subscript):
            return self.base(mod, e.value)
        return None

    def members(self, c, depth=0):
        """names of the attributes of a library class and its bases; None when it cannot be told"""
        if not c or c[0] != 'class' or depth > 12:
            return None
        mod, node = c[1], c[2]
        out = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in x.targets):
                for k in ast.walk(x.value):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        out.add(k.value)
        if '__getattr__' in out or '__getattribute__' in out:
            return None
        if node.keywords and any(k.arg == 'metaclass' for k in node.keywords):
            pass
        for b in node.bases:
            r = self.base(mod, b)
            if r and r[0] == 'builtin':
                import builtins
                out |= set(dir(getattr(builtins, r[1], object)))
                continue
            m = self.members(r, depth + 1) if r else None
            if m is None:
                return None
            out |= m
        return out | set(dir(object))
