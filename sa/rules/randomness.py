"""C24: random numbers of seeded operations."""
import ast

from . import rule, Ob
from .flow import dotted, parents
from .names import functions, top_level
from ..repo import Class

SEEDED = {'random_seed', 'rng', 'random_service', 'rand',
          'random_state', 'rstate'}
MAKERS = {'RandomState', 'default_rng', 'Generator', 'SeedSequence',
          'MT19937', 'PCG64', 'PCG64DXSM', 'Philox', 'SFC64', 'BitGenerator',
          'Random', 'SystemRandom'}
SEEDERS = {'numpy.random.seed', 'random.seed', 'numpy.random.set_state',
           'random.setstate'}


def local_imports(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = \
                    a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def external(m, loc, n):
    """full dotted name of an expression rooted at an import, or None"""
    d = dotted(n)
    if d is None:
        return None
    head, _, rest = d.partition('.')
    base = loc.get(head, m.imports.get(head))
    if base is None:
        return None
    return base + ('.' + rest if rest else '')


def is_global(q):
    """a draw from (or use of) a process-wide generator"""
    for p in ('numpy.random.', 'random.'):
        if q.startswith(p) and q[len(p):] not in MAKERS and \
                '.' not in q[len(p):]:
            return True
    return False


def own_params(fn):
    a = fn.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def seeds(fn):
    """the parameters of fn which are a generator or the seed of one"""
    ps = set(own_params(fn))
    out = ps & SEEDED
    if 'seed' in ps and any(
            isinstance(n, ast.Call) and (dotted(n.func) or '').rpartition(
                '.')[2] in MAKERS and any(
                isinstance(x, ast.Name) and x.id == 'seed'
                for a in list(n.args) + [k.value for k in n.keywords]
                for x in ast.walk(a)) for n in ast.walk(fn)):
        out.add('seed')
    return out


def is_none_test(t, names):
    """'x is None' (or 'x is None or ...' is not) for one of names"""
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
        t.ops[0], (ast.Is, ast.Eq)) and isinstance(
        t.comparators[0], ast.Constant) and \
        t.comparators[0].value is None and isinstance(
            t.left, ast.Name) and t.left.id in names


def is_not_none_test(t, names):
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
        t.ops[0], (ast.IsNot, ast.NotEq)) and isinstance(
        t.comparators[0], ast.Constant) and \
        t.comparators[0].value is None and isinstance(
            t.left, ast.Name) and t.left.id in names


def in_fallback(par, root, n, names):
    """n only runs where no generator was given"""
    c, p = n, par.get(n)
    while p is not None and c is not root:
        if isinstance(p, ast.If):
            if any(c is s for s in p.body) and is_none_test(p.test, names):
                return True
            if any(c is s for s in p.orelse) and is_not_none_test(
                    p.test, names):
                return True
        if isinstance(p, ast.IfExp):
            if c is p.body and is_none_test(p.test, names):
                return True
            if c is p.orelse and is_not_none_test(p.test, names):
                return True
        if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.Or) and \
                isinstance(p.values[0], ast.Name) and \
                p.values[0].id in names and c is not p.values[0]:
            return True
        c, p = p, par.get(p)
    # after 'if x is not None: return ...' only the fallback remains
    c, p = n, par.get(n)
    while p is not None and c is not root:
        for b in ('body', 'orelse', 'finalbody'):
            blk = getattr(p, b, None)
            if isinstance(blk, list) and any(c is s for s in blk):
                for s in blk:
                    if s is c:
                        break
                    if isinstance(s, ast.If) and is_not_none_test(
                            s.test, names) and isinstance(
                            s.body[-1], (ast.Return, ast.Raise)):
                        return True
        c, p = p, par.get(p)
    return False


def generator_attrs(cur, c):
    """attributes of a class which hold a generator made from a seed"""
    out = set()
    for k in cur.mro(c):
        for f in list(k.methods.values()):
            loc = local_imports(f.node)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Assign):
                    continue
                for t in n.targets:
                    if not (isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name)):
                        continue
                    for x in ast.walk(n.value):
                        if isinstance(x, ast.Call):
                            q = external(k.module, loc, x.func)
                            if q and q.rpartition('.')[2] in MAKERS and \
                                    'random' in q:
                                out.add(t.attr)
                        if isinstance(x, ast.Name) and x.id in SEEDED and \
                                isinstance(n.value, ast.Name):
                            out.add(t.attr)
                        if isinstance(x, ast.Constant) and \
                                x.value == 'random_service':
                            out.add(t.attr)
    return out


def rng_params(fn):
    """{name: (position, has default None)} of generator parameters"""
    a = fn.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    dfl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is not None})
    out = {}
    for p in own_params(fn):
        if p in ('rng', 'random_service', 'rand', 'random_state'):
            d = dfl.get(p)
            if isinstance(d, ast.Constant) and d.value is None:
                out[p] = pos.index(p) if p in pos else None
    return out


@rule('randomness', 3)
def randomness(ctx):
    """Operations given a seed or random service draw only from it, hand it
    on to the functions they call, and nobody seeds the process-wide
    generators."""
    obs = []
    cur = ctx.cur
    for m in cur.modules.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Call):
                q = external(m, local_imports(m.tree), s.func)
                if q in SEEDERS:
                    obs.append(Ob('randomness', m.name, False,
                                  'seeds the process-wide generator (%s)' % q,
                                  m.path, s.lineno))
    memo = {}
    for m, cls, fn in functions(cur):
        c = m.classes.get(cls.name) if cls is not None else None
        if c is not None and c.qual not in memo:
            memo[c.qual] = generator_attrs(cur, c)
        attrs = memo[c.qual] if c is not None else set()
        scan(obs, cur, m, c, fn, attrs,
             '%s:%s%s' % (m.name, cls.name + '.' if cls else '', fn.name))
    return obs


def scan(obs, cur, m, c, fn, attrs, site):
    loc = local_imports(fn)
    par = parents(fn)
    for n in ast.walk(fn):
        if not isinstance(n, (ast.Attribute, ast.Name)) or not isinstance(
                n.ctx, ast.Load):
            continue
        q = external(m, loc, n)
        if q is None or not q.startswith(('numpy.random', 'random')):
            continue
        p = par.get(n)
        if isinstance(p, ast.Attribute):
            continue
        # the functions around n
        names = set()
        x = n
        while x is not None:
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                names |= seeds(x)
            x = par.get(x)
        names |= {t.id for t in ast.walk(fn) if isinstance(t, ast.Name) and
                  isinstance(t.ctx, ast.Store) and t.id in SEEDED}
        seeded = bool(names) or bool(attrs)
        if q in ('numpy.random', 'random') or is_global(q):
            if not seeded:
                continue
            ok = in_fallback(par, fn, n, names)
            obs.append(Ob(
                'randomness', site, ok or False,
                'process-wide generator only where none was given' if ok else
                'draws from the process-wide generator (%s) although it is '
                'given %s' % (q, ', '.join(sorted(names | attrs))),
                m.path, n.lineno))
            continue
        tail = q.rpartition('.')[2]
        if tail in MAKERS and isinstance(p, ast.Call) and p.func is n:
            args = list(p.args) + [k.value for k in p.keywords]
            none = not args or all(isinstance(a, ast.Constant) and
                                   a.value is None for a in args)
            if none:
                ok = in_fallback(par, fn, n, names)
                obs.append(Ob(
                    'randomness', site, True if ok else
                    False if seeded else None,
                    'unseeded generator %s' % (
                        'only where none was given' if ok else
                        'in an operation given a seed'), m.path, n.lineno))
            else:
                bad = entropy(m, loc, args)
                obs.append(Ob('randomness', site, not bad,
                              'generator made from %s' % (
                                  ast.unparse(args[0])), m.path, n.lineno))
    for n in ast.walk(fn):
        if not isinstance(n, ast.Call):
            continue
        target = callee(cur, m, c, fn, n)
        if target is None:
            continue
        for prm, pos in rng_params(target.node).items():
            own = seeds(fn)
            if not own and not attrs:
                continue
            off = 1 if target.cls is not None and not target.is_static else 0
            given = None
            for k in n.keywords:
                if k.arg == prm:
                    given = k.value
            if given is None and pos is not None and \
                    len(n.args) > pos - off:
                given = n.args[pos - off]
            if any(k.arg is None for k in n.keywords) or any(
                    isinstance(a, ast.Starred) for a in n.args):
                continue
            bad = given is None or isinstance(given, ast.Constant) and \
                given.value is None
            if bad and in_fallback(par, fn, n, own):
                bad = False
            obs.append(Ob(
                'randomness', site + ' -> ' + target.name, not bad,
                'hands on its random generator' if not bad else
                'does not hand its random generator to %s' % target.name,
                m.path, n.lineno))


def entropy(m, loc, args):
    """is the seed taken from the clock, the process or another generator"""
    for a in args:
        for x in ast.walk(a):
            if isinstance(x, ast.Call):
                q = external(m, loc, x.func) or ''
                if q.startswith(('time.', 'os.urandom', 'os.getpid',
                                 'secrets.', 'uuid.', 'datetime.')) or \
                        is_global(q):
                    return True
    return False


def callee(cur, m, c, fn, n):
    d = dotted(n.func)
    if d is None:
        return None
    head, _, rest = d.partition('.')
    if head == 'self' and c is not None and rest and '.' not in rest:
        return cur.find_method(c, rest)
    r = cur.resolve_name(m, head)
    if r is None:
        return None
    if rest and r[0] == 'module':
        r = cur.resolve(r[1].name + '.' + rest)
    elif rest:
        return None
    return r[1] if r[0] == 'func' else None
