"""C22: names, attributes, imports and call signatures."""
import ast
import builtins
import copy

from . import rule, Ob
from ..repo import Class, Func, dotted

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
                                 '__path__', '__class__'}


def functions(repo):
    """(module, class or None, function node) of every outermost function"""
    r = repo.__dict__.get('_outer')
    if r is None:
        r = repo._outer = list(outer_functions(repo))
    return r


def outer_functions(repo):
    for m in repo.modules.values():
        for s in top_level(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, None, s
            elif isinstance(s, ast.ClassDef):
                for t in top_level(s.body):
                    if isinstance(t, (ast.FunctionDef,
                                      ast.AsyncFunctionDef)):
                        yield m, s, t


def top_level(body):
    for s in body:
        yield s
        if isinstance(s, (ast.If, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                yield from top_level(getattr(s, f, []) or [])
            for h in getattr(s, 'handlers', []):
                yield from top_level(h.body)


def module_names(m):
    out = set(BUILTINS)
    star = False

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for x in ast.walk(n):
                if isinstance(x, ast.Global):
                    out.update(x.names)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_Name(self, n):
            if not isinstance(n.ctx, ast.Load):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    V().visit(m.tree)
    if '*' in out:
        star = True
    return out, star


class Scope(object):
    def __init__(self, node, parent):
        self.node = node
        self.parent = parent
        self.names = set()
        self.globals = set()


def bind(node):
    """names bound in the scope of a function node"""
    names = set()
    glob = set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(p.arg)
    for p in (a.vararg, a.kwarg):
        if p:
            names.add(p.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # walrus targets escape, comprehension targets do not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for x in n.names:
                names.add(x.asname or x.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for x in n.names:
                names.add(x.asname or x.name)

        def visit_Name(self, n):
            if not isinstance(n.ctx, ast.Load):
                names.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            glob.update(n.names)
    v = V()
    for s in body:
        v.visit(s)
    return names - glob


def const_false(t):
    return isinstance(t, ast.Constant) and not t.value


def undefined(func, known, classnames=()):
    """[(name, line)] of loads without any binding, and number of loads"""
    out = []
    count = [0]

    def walk(n, scopes):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, 'decorator_list', []):
                walk(d, scopes)
            a = n.args
            for d in a.defaults + [x for x in a.kw_defaults if x]:
                walk(d, scopes)
            inner = scopes + [bind(n)]
            body = n.body if isinstance(n.body, list) else [n.body]
            for s in body:
                walk(s, inner)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                walk(b, scopes)
            names = set()
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    names.add(s.name)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and not isinstance(
                            x.ctx, ast.Load):
                        names.add(x.id)
            for s in n.body:
                walk(s, scopes if isinstance(s, ast.FunctionDef)
                     else scopes + [names])
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            t = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        t.add(x.id)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    t.add(x.target.id)
            inner = scopes + [t]
            for i, g in enumerate(n.generators):
                walk(g.iter, scopes if i == 0 else inner)
                for c in g.ifs:
                    walk(c, inner)
            if isinstance(n, ast.DictComp):
                walk(n.key, inner)
                walk(n.value, inner)
            else:
                walk(n.elt, inner)
            return
        if isinstance(n, ast.If) and const_false(n.test):
            for s in n.orelse:
                walk(s, scopes)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load,
                                                          ast.Del)):
            count[0] += 1
            if not any(n.id in s for s in scopes) and n.id not in known:
                out.append((n.id, n.lineno))
            return
        for c in ast.iter_child_nodes(n):
            walk(c, scopes)
    walk(func, [])
    return out, count[0]


# Locals whose binding and use are guarded by conditions which imply each
# other without being the same text; read by hand, left undecided here.
EXHAUSTIVE = 'the accepted methods are checked before, each binds it'
FLAG = 'bound under the tensor test which also sets the flag tested at use'
REVIEWED = {}
for _n in ('num_data', 'data', 'num_labels', 'labels', 'num_misc', 'misc',
           'num_weights', 'weights', 'filter_mask'):
    REVIEWED['modular', _n] = EXHAUSTIVE
for _n in ('x_time_exclusions_ids', 'x_time_exclusions',
           'x_time_excl_batch_id'):
    REVIEWED['default', _n] = FLAG
REVIEWED['pulse_data', 'tw_mask'] = 'same data key at binding and use'


@rule('names', 300)
def names(ctx):
    obs = []
    for m in ctx.cur.modules.values():
        known, star = module_names(m)
        if star:
            obs.append(Ob('names', m.name, None, 'star import', m.path))
            continue
        for mod, cls, f in functions(ctx.cur):
            if mod is not m:
                continue
            bad, n = undefined(f, known)
            site = '%s:%s%s' % (m.name, cls.name + '.' if cls else '',
                                f.name)
            if bad:
                for nm, ln in bad:
                    obs.append(Ob('names', site, False,
                                  'name %r is not defined anywhere in scope'
                                  % nm, m.path, ln))
            else:
                ub = []
                for nm, ln, why in unbound(f):
                    if (m.name.rpartition('.')[2], nm) in REVIEWED:
                        obs.append(Ob('names', site, None, 'local %r: %s' % (
                            nm, REVIEWED[m.name.rpartition('.')[2], nm]),
                            m.path, ln))
                    else:
                        ub.append((nm, ln, why))
                for nm, ln, why in ub:
                    obs.append(Ob('names', site, False,
                                  'local %r is used %s' % (nm, why),
                                  m.path, ln))
                if not ub:
                    obs.append(Ob('names', site, True, '%d name uses' % n,
                                  m.path, f.lineno))
        # module level code
        body = [s for s in m.tree.body]
        fake = ast.parse('def module(): pass').body[0]
        fake.body = body
        bad, n = undefined(fake, known)
        for nm, ln in bad:
            if not any(o.line == ln and o.status is False for o in obs):
                obs.append(Ob('names', m.name, False,
                              'name %r is not defined' % nm, m.path, ln))
    return obs


# ----------------------------------------------------- definite assignment

def lit(test, pos=True):
    """list of (key, polarity) conjuncts of a test"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return lit(test.operand, not pos)
    if isinstance(test, ast.BoolOp) and (
            isinstance(test.op, ast.And) and pos or
            isinstance(test.op, ast.Or) and not pos):
        out = []
        for v in test.values:
            out += lit(v, pos)
        return out
    flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and type(
            test.ops[0]) in flip:
        test = ast.Compare(left=test.left, ops=[flip[type(test.ops[0])]()],
                           comparators=test.comparators)
        pos = not pos
    return [((key(test)), pos)]


def key(test):
    # Deliberately without versions: a re-test of the same text counts as
    # correlated even when the tested location was stored to in between.
    return ast.unparse(test), frozenset(
        n.id for n in ast.walk(test) if isinstance(n, ast.Name))


def unbound(func):
    """[(name, line, why)] for plain-branch paths reaching an unbound use"""
    locs = bind(func)
    a = func.args
    params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    for p in (a.vararg, a.kwarg):
        if p:
            params.add(p.arg)
    out = []
    seen = set()

    # state: dict name -> list of frozenset(literals) paths where unbound;
    # plus the dict of versions, plus 'assumed' literals of the current path
    class S(object):
        __slots__ = ('un', 'lits', 'dead')

        def __init__(self):
            self.un = {}
            self.lits = {}
            self.dead = False

        def copy(self):
            s = S()
            s.un = dict(self.un)
            s.lits = dict(self.lits)
            s.dead = self.dead
            return s

    def define(st, nm):
        st.un.pop(nm, None)
        forget(st, nm)

    def forget(st, nm):
        for k in [k for k in st.lits if nm in k[1]]:
            del st.lits[k]

    def use(st, nm, line):
        if nm not in locs or nm in params or st.dead:
            return
        for path in st.un.get(nm, ()):
            if all(st.lits.get(k, v) == v for k, v in path):
                if nm not in seen:
                    seen.add(nm)
                    cond = ' and '.join(
                        ('' if v else 'not ') + '(%s)' % k[0]
                        for k, v in sorted(path, key=repr))
                    out.append((nm, line, 'unbound when ' + cond if cond
                                else 'before it is bound on every path'))
                return

    def expr(e, st):
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            t = {x.id for g in e.generators for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, ast.Load) and x.id not in t:
                    if not in_lambda(e, x):
                        use(st, x.id, x.lineno)
                if isinstance(x, ast.NamedExpr):
                    define(st, x.target.id)
            return
        if isinstance(e, ast.IfExp):
            expr(e.test, st)
            s1, s2 = st.copy(), st.copy()
            assume(s1, e.test, True)
            assume(s2, e.test, False)
            expr(e.body, s1)
            expr(e.orelse, s2)
            return
        if isinstance(e, ast.BoolOp):
            s = st.copy()
            for i, v in enumerate(e.values):
                expr(v, s if i else st)
                if not i:
                    s = st.copy()
                assume(s, v, isinstance(e.op, ast.And))
            return
        if isinstance(e, ast.NamedExpr):
            expr(e.value, st)
            define(st, e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                use(st, e.id, e.lineno)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice,
                              ast.FormattedValue)):
                expr(c.value if isinstance(c, ast.keyword) else c, st)

    def in_lambda(root, x):
        for l in ast.walk(root):
            if isinstance(l, ast.Lambda) and any(y is x
                                                 for y in ast.walk(l)):
                return True
        return False

    def assume(st, test, pos):
        if isinstance(test, ast.Constant):
            if bool(test.value) != pos:
                st.dead = True
            return
        for t in (test, expanded(test)):
            for k, v in lit(t, pos) if t is not None else ():
                if st.lits.get(k, v) != v:
                    st.dead = True
                st.lits[k] = v

    # conditions which were given a name
    once = {}
    for x in ast.walk(func):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            once.setdefault(x.id, []).append(None)
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name) and isinstance(
                    x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call,
                              ast.Attribute, ast.Subscript, ast.Name)):
            once.setdefault(x.targets[0].id, []).append(x.value)
    once = {n: [y for y in v if y is not None][0] for n, v in once.items()
            if len(v) == 2 and v.count(None) == 1 and n not in params}

    class Expand(ast.NodeTransformer):
        def visit_Name(self, n):
            return once.get(n.id, n)

    def expanded(test):
        if not any(isinstance(x, ast.Name) and x.id in once
                   for x in ast.walk(test)):
            return None
        return Expand().visit(copy.deepcopy(test))

    def target(t, st):
        if isinstance(t, ast.Name):
            define(st, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x, st)
        elif isinstance(t, ast.Starred):
            target(t.value, st)
        else:
            expr(t, st)
            # the object behind a stored location changes
            r = t
            while isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            if isinstance(r, ast.Name):
                forget(st, r.id)

    def join(a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        s = S()
        s.lits = {k: v for k, v in a.lits.items() if b.lits.get(k) == v}
        for n in set(a.un) | set(b.un):
            ps = []
            for st in (a, b):
                own = {(k, v) for k, v in st.lits.items()
                       if s.lits.get(k) != v}
                for p in st.un.get(n, ()):
                    q = set(p) | own
                    if not any((k, not v) in q for k, v in q):
                        ps.append(frozenset(q))
            uniq = []
            for p in ps:
                if p not in uniq:
                    uniq.append(p)
            if uniq:
                s.un[n] = tuple(uniq[:40])
        return s

    def bound_in(body):
        o = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    o.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    o.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for al in x.names:
                        o.add(al.asname or al.name.split('.')[0])
        return o

    def block(body, st):
        for s in body:
            if st.dead:
                return st
            st = stmt(s, st)
        return st

    def stmt(s, st):
        if isinstance(s, ast.Assign):
            expr(s.value, st)
            for t in s.targets:
                target(t, st)
            if isinstance(s.value, ast.Constant):
                # flags
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        assume(st, t, bool(s.value.value))
        elif isinstance(s, ast.AugAssign):
            expr(as_load(s.target), st)
            expr(s.value, st)
            target(s.target, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                expr(s.value, st)
                target(s.target, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                expr(as_load(t), st)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                expr(c, st)
            st.dead = True
        elif isinstance(s, (ast.Break, ast.Continue)):
            st.dead = True
        elif isinstance(s, ast.Expr):
            expr(s.value, st)
            if isinstance(s.value, ast.Call) and dotted(
                    s.value.func) in ('sys.exit', 'exit', 'quit'):
                st.dead = True
        elif isinstance(s, ast.Assert):
            expr(s.test, st)
            assume(st, s.test, True)
        elif isinstance(s, ast.If):
            expr(s.test, st)
            a, b = st.copy(), st.copy()
            assume(a, s.test, True)
            assume(b, s.test, False)
            a = block(s.body, a)
            b = block(s.orelse, b)
            return join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                expr(s.test, st)
            else:
                expr(s.iter, st)
            inner = st.copy()
            for n in bound_in(s.body):
                # a later iteration sees the bindings of the earlier one
                forget(inner, n)
            if not isinstance(s, ast.While):
                target(s.target, inner)
            end = block(s.body, inner)
            for n in bound_in(s.body) | (set() if isinstance(
                    s, ast.While) else bound_in_target(s.target)):
                define(st, n)
            st = block(s.orelse, st)
            if isinstance(s, ast.While) and isinstance(
                    s.test, ast.Constant) and s.test.value and not any(
                    isinstance(x, ast.Break) for x in ast.walk(s)):
                st.dead = True
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            a = block(s.body, st.copy())
            outs = []
            a = block(s.orelse, a)
            outs.append(a)
            for h in s.handlers:
                b = st.copy()
                # anything of the body may have run
                for n in bound_in(s.body):
                    define(b, n)
                if h.name:
                    define(b, h.name)
                outs.append(block(h.body, b))
            r = outs[0]
            for o in outs[1:]:
                r = join(r, o)
            if s.finalbody:
                f = r
                if f.dead:
                    f = st.copy()
                    for n in bound_in(s.body):
                        define(f, n)
                    block(s.finalbody, f)
                else:
                    r = block(s.finalbody, r)
            return r
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                expr(i.context_expr, st)
                if i.optional_vars is not None:
                    target(i.optional_vars, st)
            return block(s.body, st)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                            ast.ClassDef)):
            for d in s.decorator_list:
                expr(d, st)
            define(st, s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                define(st, al.asname or al.name.split('.')[0])
        elif isinstance(s, ast.Match) if hasattr(ast, 'Match') else False:
            expr(s.subject, st)
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    for nm in ('name', 'rest'):
                        v = getattr(x, nm, None)
                        if isinstance(v, str):
                            define(st, v)
                block(c.body, st.copy())
            for n in bound_in([s]):
                define(st, n)
        return st

    def bound_in_target(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    st = S()
    for n in locs - params:
        st.un[n] = (frozenset(),)
    block(func.body, st)
    # nested functions: own locals
    for x in ast.walk(func):
        if isinstance(x, ast.FunctionDef) and x is not func and \
                parent_func(func, x) is func:
            out.extend(unbound(x))
    return out


def parent_func(root, x):
    best = root
    for f in ast.walk(root):
        if isinstance(f, ast.FunctionDef) and f is not x and any(
                y is x for y in ast.walk(f)):
            if any(y is f for y in ast.walk(best)):
                best = f
    return best


def as_load(t):
    n = ast.parse(ast.unparse(t), mode='eval').body
    for x in ast.walk(n):
        if hasattr(x, 'lineno'):
            x.lineno = t.lineno
    return n


# ---------------------------------------------------------------- imports
@rule('imports', 100)
def imports(ctx):
    obs = []
    cur = ctx.cur
    for m in cur.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module
                                             else []))
                if not (base + '.').startswith('egenerator.'):
                    continue
                for a in n.names:
                    if a.name == '*':
                        continue
                    ok = exists(cur, base, a.name)
                    obs.append(Ob('imports', '%s: from %s import %s' % (
                        m.name, base, a.name), ok,
                        'imported member exists' if ok else
                        'imported member does not exist', m.path, n.lineno))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.startswith('egenerator'):
                        ok = a.name in cur.modules or namespace(cur, a.name)
                        obs.append(Ob('imports', '%s: import %s' % (
                            m.name, a.name), ok, 'module exists' if ok else
                            'imported module does not exist', m.path,
                            n.lineno))
        # members of imported package modules
        known = {k: v for k, v in m.imports.items()
                 if v.split('.')[0] == 'egenerator'}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                d = dotted(n)
                if d is None:
                    continue
                head, _, rest = d.partition('.')
                if head not in known:
                    continue
                r = cur.resolve(known[head])
                parts = rest.split('.')
                q = known[head]
                while parts and r[0] == 'module':
                    q = q + '.' + parts[0]
                    nm = parts.pop(0)
                    ok = exists(cur, r[1].name, nm)
                    if not parts or not ok:
                        obs.append(Ob('imports', '%s: %s' % (m.name, d), ok,
                                      'module member exists' if ok else
                                      'module %s has no member %r' % (
                                          r[1].name, nm), m.path, n.lineno))
                    if not ok:
                        break
                    r = cur.resolve(q)
    return obs


def namespace(cur, name):
    return any(k.startswith(name + '.') for k in cur.modules)


def exists(cur, base, nm):
    q = base + '.' + nm
    if q in cur.modules or namespace(cur, q):
        return True
    m = cur.modules.get(base)
    if m is None:
        return False
    names, star = module_names(m)
    return star or (nm in names and nm not in BUILTINS) or nm in (
        '__name__', '__file__', '__doc__', '__version__')


# -------------------------------------------------------------- attributes
TF_MODULE = {'name', 'variables', 'trainable_variables', 'submodules',
             'non_trainable_variables', 'name_scope', 'with_name_scope',
             '_name', '_name_scope'}
OBJECT = {'__class__', '__dict__', '__name__', '__doc__', '__module__',
          '__init__', '__eq__', '__ne__', '__hash__', '__repr__', '__str__'}


class Members(object):
    def __init__(self, repo):
        self.repo = repo
        self.subs = {}
        for m in repo.modules.values():
            for c in m.classes.values():
                for b in repo.mro(c)[1:]:
                    self.subs.setdefault(b.qual, set()).add(c.qual)
        self.memo = {}

    def own(self, c):
        r = self.memo.get(c.qual)
        if r is not None:
            return r
        out = set(c.methods) | set(c.assigns) | set(c.setters)
        dyn = False
        for f in ast.walk(c.node):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            selfn = f.args.args[0].arg if f.args.args else None
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id in (
                        selfn, 'self', 'cls') and not isinstance(
                        n.ctx, ast.Load):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and dotted(n.func) in (
                        'setattr', 'self.__dict__.update',
                        'self.__setattr__', 'object.__setattr__'):
                    if dotted(n.func) != 'self.__dict__.update' and len(
                            n.args) > 1 and isinstance(
                            n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        dyn = True
                if isinstance(n, ast.Subscript) and dotted(
                        n.value) == 'self.__dict__':
                    dyn = True
        if '__getattr__' in out or '__getattribute__' in out:
            dyn = True
        self.memo[c.qual] = (out, dyn)
        return out, dyn

    def external(self, c):
        out = set()
        for k in self.repo.mro(c):
            for b in self.repo.bases(k):
                if not isinstance(b, Class) and b != 'object':
                    out.add(b)
        return out

    def of(self, c, family=True):
        """(names, open?) of the class with bases and, if family, heirs"""
        names = set(OBJECT)
        op = False
        cs = list(self.repo.mro(c))
        if family:
            for q in self.subs.get(c.qual, ()):
                for k in self.repo.mro(self.repo.get_class(q)):
                    if k not in cs:
                        cs.append(k)
        for k in cs:
            o, dyn = self.own(k)
            names |= o
            op |= dyn
        for b in self.external(c):
            if b.endswith('tf.Module') or b == 'tensorflow.Module':
                names |= TF_MODULE
            else:
                op = True
        return names, op


# names which always hold an object of a package class
TYPED = {
    'configuration': 'egenerator.manager.component.Configuration',
    'data_handler': 'egenerator.data.handler.base.BaseDataHandler',
    'data_trafo': 'egenerator.data.trafo.DataTransformer',
    'data_transformer': 'egenerator.data.trafo.DataTransformer',
    'function_cache':
        'egenerator.manager.reconstruction.tray.FunctionCache',
    'reco_tray': 'egenerator.manager.reconstruction.tray.ReconstructionTray',
    'manager': 'egenerator.manager.base.BaseModelManager',
}


@rule('self_attributes', 300)
def self_attributes(ctx):
    obs = []
    mem = Members(ctx.cur)
    for m in ctx.cur.modules.values():
        for c in m.classes.values():
            names, op = mem.of(c)
            if op:
                obs.append(Ob('self_attributes', c.qual, None,
                              'attributes of an external base class',
                              m.path, c.node.lineno))
                ext = True
            else:
                ext = False
            n_ok = 0
            for f in ast.walk(c.node):
                if not isinstance(f, ast.FunctionDef) or f not in [
                        x.node for x in list(c.methods.values()) +
                        list(c.setters.values())]:
                    continue
                deco = [ast.unparse(d) for d in f.decorator_list]
                if 'staticmethod' in deco or not f.args.args:
                    continue
                selfn = f.args.args[0].arg
                for n in live_walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.value, ast.Name) and n.value.id == selfn \
                            and isinstance(n.ctx, ast.Load):
                        if n.attr in names:
                            n_ok += 1
                        elif not ext and not guarded(f, n, selfn):
                            obs.append(Ob(
                                'self_attributes', '%s.%s' % (
                                    c.qual, f.name), False,
                                '%s.%s is never defined in the class, its '
                                'bases or its subclasses' % (
                                    selfn, n.attr), m.path, n.lineno))
            if n_ok:
                obs.append(Ob('self_attributes', c.qual, True,
                              '%d attribute uses' % n_ok, m.path,
                              c.node.lineno))
        # objects of known package classes
        local = set()
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                for n in live_walk(f):
                    if not isinstance(n, ast.Attribute) or not isinstance(
                            n.ctx, ast.Load):
                        continue
                    b = n.value
                    nm = b.attr if isinstance(b, ast.Attribute) else \
                        b.id if isinstance(b, ast.Name) else None
                    q = TYPED.get(nm)
                    if isinstance(b, ast.Name):
                        t = taken_from(f, nm)
                        if t is not None:
                            q = TYPED[t]
                        elif q is None or rebinds(m.tree, f, nm, ctx.cur):
                            continue
                    if q is None:
                        continue
                    k = ctx.cur.get_class(q)
                    if k is None:
                        continue
                    names, op = mem.of(k)
                    if op:
                        continue
                    ok = n.attr in names or guarded(f, n, None)
                    obs.append(Ob(
                        'self_attributes', '%s:%s %s.%s' % (
                            m.name, f.name, nm, n.attr), ok,
                        'member of %s' % k.name if ok else
                        '%s has no attribute %r' % (k.name, n.attr),
                        m.path, n.lineno))
    return obs


def live_walk(f):
    todo = [f]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.If) and const_false(n.test) and \
                    c in n.body:
                continue
            todo.append(c)


def guarded(f, node, selfn):
    """below a hasattr test or an AttributeError handler"""
    for n in ast.walk(f):
        if isinstance(n, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(
                n.test) and any(x is node for x in ast.walk(n)):
            return True
        if isinstance(n, ast.Try) and any(
                h.type is None or 'AttributeError' in ast.unparse(h.type) or
                'Exception' in ast.unparse(h.type) for h in n.handlers) and \
                any(x is node for s in n.body for x in ast.walk(s)):
            return True
    return False


def taken_from(f, nm):
    """The typed attribute to which every binding of a local name refers."""
    if any(a.arg == nm for a in f.args.posonlyargs + f.args.args +
           f.args.kwonlyargs + [f.args.vararg, f.args.kwarg]
           if a is not None):
        return None
    found = set()
    plain = 0
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and n.targets[0].id == nm:
            plain += 1
            found.add(n.value.attr if isinstance(n.value, ast.Attribute)
                      else None)
        elif isinstance(n, ast.Name) and n.id == nm and not isinstance(
                n.ctx, ast.Load):
            plain -= 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)) and nm in n.names or \
                isinstance(n, ast.arg) and n.arg == nm:
            return None
    t = found.pop() if len(found) == 1 else None
    return t if t in TYPED and plain == 0 else None


def rebinds(tree, f, nm, repo):
    """is the name assigned from something which is no package object"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign, ast.For, ast.With)):
            ts = n.targets if isinstance(n, ast.Assign) else \
                [n.target] if isinstance(n, ast.For) else \
                [i.optional_vars for i in n.items if i.optional_vars]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id == nm:
                        return True
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if (a.asname or a.name) == nm:
                    return True
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name) and x.id == nm:
                    return True
    return False


# ------------------------------------------------------------------- calls
def accepts(fn, npos, kws, star, dstar, bound):
    """error text, or None if the call fits the signature"""
    a = fn.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    nd = len(a.defaults)
    required = pos[:len(pos) - nd]
    if bound:
        pos, required = pos[1:], required[1:]
    konly = {p.arg for p in a.kwonlyargs}
    kreq = {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments but %d are given' % (
            len(pos), npos)
    given = set(pos[:npos])
    for k in kws:
        if k in given:
            return 'gets several values for argument %r' % k
        if k not in pos and k not in konly and not a.kwarg:
            return 'has no argument %r' % k
    if not star and not dstar:
        miss = [p for p in required[npos:] if p not in kws]
        miss += sorted(p for p in kreq if p not in kws)
        if miss:
            return 'misses argument %s' % ', '.join(map(repr, miss))
    elif not dstar and kreq - set(kws):
        return 'misses argument %s' % ', '.join(sorted(kreq - set(kws)))
    return None


@rule('calls', 300)
def calls(ctx):
    obs = []
    cur = ctx.cur
    mem = Members(cur)
    byname = {}
    for f in cur.all_functions():
        if f.cls is not None and not f.is_setter and not f.is_property:
            byname.setdefault(f.name, []).append(f)
    for m, cls, fn in functions(cur):
        c = m.classes.get(cls.name) if cls is not None else None
        selfn = fn.args.args[0].arg if cls is not None and fn.args.args \
            else None
        deco = [ast.unparse(d) for d in fn.decorator_list]
        if 'staticmethod' in deco:
            selfn = None
        local = bind(fn)
        for n in live_walk(fn):
            if not isinstance(n, ast.Call):
                continue
            npos = sum(1 for a in n.args if not isinstance(a, ast.Starred))
            star = any(isinstance(a, ast.Starred) for a in n.args)
            kws = [k.arg for k in n.keywords if k.arg]
            dstar = any(k.arg is None for k in n.keywords)
            site = '%s:%s%s -> %s' % (m.name, cls.name + '.' if cls else '',
                                      fn.name, ast.unparse(n.func)[:60])
            cands = None
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Name) and f.value.id == selfn and \
                    c is not None:
                cands = method_family(cur, mem, c, f.attr)
                bound = True
                if cands is not None:
                    cands = [(x.node, not x.is_static) for x in cands]
            elif isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super':
                if c is not None:
                    for k in cur.mro(c)[1:]:
                        if f.attr in k.methods:
                            x = k.methods[f.attr]
                            cands = [(x.node, not x.is_static)]
                            break
            else:
                d = dotted(f)
                if d is not None and d.split('.')[0] not in local:
                    head, _, rest = d.partition('.')
                    r = cur.resolve_name(m, head)
                    if r is not None and rest:
                        if r[0] == 'module':
                            r = cur.resolve(r[1].name + '.' + rest)
                        elif r[0] == 'class':
                            r = cur.resolve(r[1].qual + '.' + rest)
                        else:
                            r = None
                    if r is not None and r[0] in ('func', 'method'):
                        x = r[1]
                        cands = [(x.node, x.is_classmethod)]
                    elif r is not None and r[0] == 'class':
                        init = cur.find_method(r[1], '__init__')
                        if init is not None:
                            cands = [(init.node, True)]
                        elif not cur.has_external_base(r[1]):
                            if npos or kws:
                                obs.append(Ob(
                                    'calls', site, False,
                                    '%s takes no arguments' % r[1].qual,
                                    m.path, n.lineno))
                            continue
                elif isinstance(f, ast.Attribute) and f.attr in byname and \
                        cands is None and distinctive(f.attr):
                    cands = [(x.node, not x.is_static)
                             for x in byname[f.attr]]
            if selfn is not None and c is not None and not cands and \
                    dotted(f) is not None and dotted(f).startswith(
                        selfn + '.') and dotted(f).count('.') == 1:
                continue            # an attribute which holds a callable
            if not cands and isinstance(f, ast.Attribute) and \
                    f.attr in byname and distinctive(f.attr) and \
                    dotted(f) is not None and not (
                        dotted(f).split('.')[0] in m.imports):
                cands = [(x.node, not x.is_static) for x in byname[f.attr]]
            if isinstance(f, ast.Name) and f.id in local:
                cands = nested_def(fn, f.id)
            if not cands:
                continue
            errs = [accepts(x, npos, kws, star, dstar, b) for x, b in cands]
            ok = any(e is None for e in errs)
            obs.append(Ob('calls', site, ok, 'arguments accepted' if ok else
                          'the called function %s' % errs[0], m.path,
                          n.lineno))
    return obs


def nested_def(fn, nm):
    ds = [x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and
          x.name == nm and x is not fn]
    others = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and
              x.id == nm and isinstance(x.ctx, ast.Store)]
    if len(ds) != 1 or others or ds[0].decorator_list:
        return None
    params = {p.arg for f in ast.walk(fn) if isinstance(
        f, (ast.FunctionDef, ast.Lambda)) for p in f.args.args}
    if nm in params:
        return None
    return [(ds[0], False)]


COMMON = {'get', 'add', 'update', 'save', 'load', 'execute', 'call', 'dict',
          'copy', 'items', 'keys', 'values', 'train', 'transform', 'list',
          'step', 'get_config', 'name', 'Configure', 'Physics', 'DAQ',
          'settings', 'config', 'data', 'kill', 'configure'}


def distinctive(name):
    return name not in COMMON and not name.startswith('__') and \
        '_' in name.strip('_')


def method_family(cur, mem, c, name):
    m = cur.find_method(c, name)
    out = [] if m is None else [m]
    for q in sorted(mem.subs.get(c.qual, ())):
        k = cur.get_class(q)
        x = k.methods.get(name)
        if x is not None and x not in out:
            out.append(x)
    for x in out:
        if x.is_property:
            return None
        for d in x.node.decorator_list:
            if ast.unparse(d) not in ('staticmethod', 'classmethod') and \
                    'function' not in ast.unparse(d):
                return None
    # attribute holding a callable
    for k in cur.mro(c):
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and n.attr == name and \
                    not isinstance(n.ctx, ast.Load):
                return None
    return out
