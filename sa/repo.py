"""Source model of the analysed package: modules, classes, functions, names."""
import ast
import os


class Func(object):
    def __init__(self, module, cls, node, parent=None):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = node.name if not isinstance(node, ast.Lambda) else \
            '<lambda>'
        self.qual = '%s:%s' % (
            module.name, (cls.name + '.' if cls else '') + self.name)
        self.decorators = [ast.unparse(d) for d in
                           getattr(node, 'decorator_list', [])]
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_property = 'property' in self.decorators
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.is_generator = _has_yield(node)
        self.path = module.path
        self.line = node.lineno

    def __repr__(self):
        return '<%s>' % self.qual


def _has_yield(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = '%s.%s' % (module.name, node.name)
        self.methods = {}
        self.setters = {}
        self.assigns = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(module, self, s)
                if f.is_setter:
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                self.assigns[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value

    def __repr__(self):
        return '<class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src)
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.consts = {}
        self.const_count = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = \
                            a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(s, ast.FunctionDef):
                self.functions[s.name] = Func(self, None, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                        self.const_count[t.id] = \
                            self.const_count.get(t.id, 0) + 1
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
                self.const_count[s.target.id] = \
                    self.const_count.get(s.target.id, 0) + 1
            elif isinstance(s, ast.AugAssign) and isinstance(
                    s.target, ast.Name):
                self.const_count[s.target.id] = \
                    self.const_count.get(s.target.id, 0) + 5
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body)
                self._collect(getattr(s, 'orelse', []))
                for h in getattr(s, 'handlers', []):
                    self._collect(h.body)


class Repo(object):
    def __init__(self, root, package='egenerator', label=''):
        self.root = root
        self.package = package
        self.label = label
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                try:
                    with open(p, encoding='utf-8') as h:
                        src = h.read()
                    self.modules[name] = Module(name, os.path.relpath(
                        p, root), src, is_pkg)
                except (SyntaxError, UnicodeDecodeError) as e:
                    self.errors.append((p, str(e)))
        self._mro = {}

    # ------------------------------------------------------------ resolving
    def resolve(self, qual, depth=0):
        """('module'|'class'|'func'|'const'|'ext', object) for dotted name"""
        if depth > 12:
            return ('ext', qual)
        if qual in self.modules:
            return ('module', self.modules[qual])
        if not (qual == self.package or
                qual.startswith(self.package + '.')):
            return ('ext', qual)
        head, _, tail = qual.rpartition('.')
        if not head:
            return ('ext', qual)
        kind, obj = self.resolve(head, depth + 1)
        if kind == 'module':
            if tail in obj.classes:
                return ('class', obj.classes[tail])
            if tail in obj.functions:
                return ('func', obj.functions[tail])
            if tail in obj.consts:
                return ('const', (obj, tail))
            if tail in obj.imports and obj.imports[tail] != qual:
                return self.resolve(obj.imports[tail], depth + 1)
            return ('missing', qual)
        if kind == 'class':
            m = self.find_method(obj, tail)
            if m is not None:
                return ('method', m)
            a = self.find_assign(obj, tail)
            if a is not None:
                return ('classattr', a)
            return ('ext', qual)
        return ('ext', qual)

    def resolve_name(self, module, name):
        if name in module.classes:
            return ('class', module.classes[name])
        if name in module.functions:
            return ('func', module.functions[name])
        if name in module.imports:
            return self.resolve(module.imports[name])
        if name in module.consts:
            return ('const', (module, name))
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            d = dotted(b)
            if d is None:
                continue
            head, _, rest = d.partition('.')
            r = self.resolve_name(cls.module, head)
            if r is None:
                continue
            kind, obj = r
            if rest:
                if kind == 'module':
                    r = self.resolve(obj.name + '.' + rest)
                elif kind == 'ext':
                    r = ('ext', obj + '.' + rest)
            if r[0] == 'class':
                out.append(r[1])
            else:
                out.append(r[1] if isinstance(r[1], str) else d)
        return out

    def mro(self, cls):
        if cls.qual in self._mro:
            return self._mro[cls.qual]
        self._mro[cls.qual] = [cls]
        out = [cls]
        for b in self.bases(cls):
            if isinstance(b, Class):
                for c in self.mro(b):
                    if c not in out:
                        out.append(c)
        self._mro[cls.qual] = out
        return out

    def has_external_base(self, cls):
        for c in self.mro(cls):
            for b in self.bases(c):
                if not isinstance(b, Class) and b != 'object':
                    return True
        return False

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, cls, name):
        for c in self.mro(cls):
            if name in c.assigns:
                return (c, c.assigns[name])
        return None

    def get_class(self, qual):
        mod, _, name = qual.rpartition('.')
        m = self.modules.get(mod)
        if m is None:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            r = self.resolve(m.imports[name])
            if r[0] == 'class':
                return r[1]
        return None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def find_func(self, qual):
        """'module:func' or 'module:Class.method' (class methods via MRO)"""
        mod, _, rest = qual.partition(':')
        m = self.modules.get(mod)
        if m is None:
            return None
        cname, _, meth = rest.rpartition('.')
        if not cname:
            if rest in m.functions:
                return m.functions[rest]
            r = self.resolve_name(m, rest)
            return r[1] if r and r[0] == 'func' else None
        c = m.classes.get(cname)
        if c is None:
            return None
        return self.find_method(c, meth)


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return None
