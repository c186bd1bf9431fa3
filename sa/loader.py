"""Source index: modules, import resolution, classes with MRO.  Reads /repo's current source."""
import ast
import os


class Module:
    def __init__(self, name, path, is_pkg, src):
        self.name, self.path, self.is_pkg, self.src = name, path, is_pkg, src
        self.tree = ast.parse(src, path)
        self.names = {}
        self.lines = src.splitlines()

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.mro = None
        self.mutated = None
        self.later = None
        self.stored = None
        self.methods, self.setters, self.props = {}, {}, set()
        self.static, self.clsm, self.abstract = set(), set(), set()
        self.attrs = {}

    @property
    def qual(self):
        return f'{self.module.name}.{self.name}'

    def lookup(self, name, after=None):
        """(owner ClassInfo, FunctionDef) or None"""
        it = list(self.mro)
        if after is not None:
            it = it[it.index(after) + 1:] if after in it else it
        for c in it:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c, c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.setters:
                    return c, c.setters[name]
                if name in c.methods:
                    return None
        return None

    def lookup_attr(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return None
                if name in c.attrs:
                    return c, c.attrs[name]
        return None

    def assigns(self, name):
        """some method of the class stores the attribute on the instance"""
        for c in self.mro:
            if not isinstance(c, ClassInfo):
                continue
            if c.stored is None:
                c.stored = {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute)
                            and isinstance(n.ctx, ast.Store)
                            and isinstance(n.value, ast.Name) and n.value.id == 'self'}
            if name in c.stored:
                return True
        return False

    def is_prop(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                return name in c.props
        return False

    def subclass_of(self, qual):
        return any((isinstance(c, ClassInfo) and c.qual == qual) or c == qual for c in self.mro)

    def __repr__(self):
        return f'<class {self.qual}>'


class Index:
    def __init__(self, root, extra=(), only_pkg='coax', overrides=None):
        """root: repository root; extra: [(modname, path)]"""
        self.root = root
        self.overrides = overrides or {}      # path -> source text
        self.modules = {}
        self.errors = []
        base = os.path.join(root, only_pkg)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d != '__pycache__')
            for fn in sorted(fns):
                if not fn.endswith('.py') or fn.endswith('_test.py'):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-len('.__init__')]
                self._add(rel, path, is_pkg)
        for name, path in extra:
            self._add(name, path, False)
        self.classes = {}
        for m in self.modules.values():
            self._names(m)
        for m in list(self.modules.values()):
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self._class(m, n)
        for c in list(self.classes.values()):
            self._mro(c)

    def _add(self, name, path, is_pkg):
        if path in self.overrides:
            src = self.overrides[path]
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        try:
            self.modules[name] = Module(name, path, is_pkg, src)
        except SyntaxError as e:
            self.errors.append((path, str(e)))

    def _names(self, m):
        def visit(body):
            for n in body:
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            m.names[a.asname] = ('import', a.name)
                        else:
                            m.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    mod = n.module or ''
                    if n.level:
                        pkg = m.package().split('.')
                        if n.level > 1:
                            pkg = pkg[:-(n.level - 1)]
                        mod = '.'.join(pkg + ([mod] if mod else []))
                    for a in n.names:
                        if a.name == '*':
                            m.names.setdefault('*', []).append(mod)
                            continue
                        m.names[a.asname or a.name] = ('from', mod, a.name)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.names[n.name] = ('def', n)
                elif isinstance(n, ast.ClassDef):
                    m.names[n.name] = ('class', n)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ('assign', n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                    m.names[n.target.id] = ('assign', n.value)
                elif isinstance(n, (ast.If, ast.Try)):
                    visit(n.body)
                    for h in getattr(n, 'handlers', []):
                        pass
        visit(m.tree.body)

    # -- resolution
    def resolve(self, m, name, depth=0):
        """('func', Module, node) | ('class', ClassInfo) | ('ext', dotted) | ('mod', Module)
        | ('value', Module, expr) | None"""
        if depth > 20:
            return None
        b = m.names.get(name)
        if b is None:
            for star in m.names.get('*', []):
                sm = self.modules.get(star)
                if sm is not None:
                    r = self.resolve(sm, name, depth + 1)
                    if r is not None:
                        return r
            return None
        if b[0] == 'import':
            if b[1] in self.modules:
                return ('mod', self.modules[b[1]])
            return ('ext', b[1])
        if b[0] == 'from':
            return self.resolve_from(b[1], b[2], depth + 1)
        if b[0] == 'def':
            return ('func', m, b[1])
        if b[0] == 'class':
            c = self.classes.get(f'{m.name}.{name}')
            return ('class', c) if c else None
        return ('value', m, b[1])

    def resolve_from(self, mod, name, depth=0):
        if mod in self.modules:
            m = self.modules[mod]
            r = self.resolve(m, name, depth)
            if r is not None:
                return r
            sub = f'{mod}.{name}'
            if sub in self.modules:
                return ('mod', self.modules[sub])
            return None
        return ('ext', f'{mod}.{name}' if mod else name)

    def _class(self, m, n):
        c = ClassInfo(n.name, m, n)
        self.classes[c.qual] = c
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith('.setter') for d in decs):
                    c.setters[s.name] = s
                    continue
                c.methods[s.name] = s
                if any(d in ('property', 'cached_property', 'functools.cached_property')
                       for d in decs):
                    c.props.add(s.name)
                if 'staticmethod' in decs:
                    c.static.add(s.name)
                if 'classmethod' in decs:
                    c.clsm.add(s.name)
                if any('abstractmethod' in d for d in decs):
                    c.abstract.add(s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[t.id] = c.methods[s.value.id]
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                c.attrs[s.target.id] = s.value

    def _mro(self, c, stack=()):
        if c.mro is not None:
            return c.mro
        if c in stack:
            c.mro = [c]
            return c.mro
        seqs = []
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r and r[0] == 'class':
                c.bases.append(r[1])
                seqs.append(list(self._mro(r[1], stack + (c,))))
            else:
                nm = r[1] if r and r[0] == 'ext' else ast.unparse(b)
                c.bases.append(nm)
                seqs.append([nm])
        seqs.append(list(c.bases))
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
        c.mro = out
        return out

    def resolve_expr(self, m, e):
        """resolve dotted expression at module level"""
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            if r is None:
                return ('ext', e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.resolve_from(b[1].name, e.attr)
            if b[0] == 'ext':
                return ('ext', f'{b[1]}.{e.attr}')
        return None

    def cls(self, name):
        """find class by simple or qualified name"""
        if name in self.classes:
            return self.classes[name]
        c = [x for x in self.classes.values() if x.name == name]
        if len(c) == 1:
            return c[0]
        c2 = [x for x in c if x.module.name.startswith('coax')]
        if len(c2) == 1:
            return c2[0]
        raise KeyError(name)

    def func(self, mod, name):
        r = self.resolve_from(mod, name)
        if r is None or r[0] != 'func':
            raise KeyError(f'{mod}.{name}')
        return r[1], r[2]

    def subclasses(self, base):
        return [c for c in self.classes.values() if base in c.mro and c is not base]
