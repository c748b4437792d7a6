"""Comparison of two versions of one function region by region.

Used where a function as a whole is too large for the comparison of its
summary, or holds a statement the summaries do not cover.  The statement
lists of both versions are aligned; equal statements are skipped, equal
headers are descended into, and every remaining pair of regions is compared
as a function of the variables it reads, yielding the variables which the
rest of the function uses, and how control leaves it.
"""
import ast
import copy
import difflib

from .compare import compare, Budget
from .repo import Func
from .symex import Unsupported, TooComplex, assigned_names

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def text(s):
    return ast.unparse(s)


def header(s):
    """what a compound statement does apart from its blocks"""
    if isinstance(s, ast.If):
        return ('if', text(s.test))
    if isinstance(s, ast.While):
        return ('while', text(s.test))
    if isinstance(s, ast.For):
        return ('for', text(s.target), text(s.iter))
    if isinstance(s, ast.With):
        return ('with', tuple(text(i) for i in s.items))
    if isinstance(s, ast.FunctionDef):
        return ('def', s.name, text(s.args),
                tuple(text(d) for d in s.decorator_list))
    if isinstance(s, ast.Try):
        return ('try', tuple((text(h.type) if h.type else '', h.name)
                             for h in s.handlers))
    return None


def blocks(s):
    """[(name, statements)] of a compound statement"""
    if isinstance(s, ast.Try):
        return [('body', s.body), ('orelse', s.orelse),
                ('finalbody', s.finalbody)] + [
            ('handler', h.body) for h in s.handlers]
    if isinstance(s, (ast.If, ast.While, ast.For)):
        return [('body', s.body), ('orelse', s.orelse)]
    return [('body', s.body)]


class Level(object):
    """a pair of statement lists and how they were reached"""

    def __init__(self, ra, ca, up, scope, names):
        self.ra = ra              # reference statements
        self.ca = ca
        self.up = up              # (level, ref index, cur index)
        self.scope = scope        # enclosing (ref, cur) function definitions
        self.names = names        # variables of the enclosing scopes


def bound(fn):
    a = fn.args
    out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    for p in (a.vararg, a.kwarg):
        if p is not None:
            out.add(p.arg)
    return out | set(assigned_names(fn.body))


def hunks(level, out):
    """differing regions as (level, i1, i2, j1, j2)"""
    a = [text(s) for s in level.ra]
    b = [text(s) for s in level.ca]
    m = difflib.SequenceMatcher(None, a, b, False)
    for tag, i1, i2, j1, j2 in m.get_opcodes():
        if tag == 'equal':
            continue
        pairs = pair_up(level.ra[i1:i2], level.ca[j1:j2])
        if pairs is None:
            out.append((level, i1, i2, j1, j2))
            continue
        for k, (r, c) in enumerate(pairs):
            if text(r) == text(c):
                continue
            scope, names = level.scope, level.names
            if isinstance(r, ast.FunctionDef):
                scope = (r, c)
                names = (names[0] | bound(r), names[1] | bound(c))
            for (_, x), (_, y) in zip(blocks(r), blocks(c)):
                hunks(Level(x, y, (level, i1 + k, j1 + k), scope, names),
                      out)


def pair_up(xs, ys):
    """statement pairs with the same headers, else None"""
    if len(xs) != len(ys):
        return None
    for x, y in zip(xs, ys):
        if type(x) is not type(y) or header(x) is None or \
                header(x) != header(y):
            return None
        if len(blocks(x)) != len(blocks(y)):
            return None
    return list(zip(xs, ys))


def enlarge(h):
    """the region of the enclosing statement, None at the outermost level"""
    level, i1, i2, j1, j2 = h
    if (i1, i2, j1, j2) != (0, len(level.ra), 0, len(level.ca)):
        # the rest of the block first
        if i2 != len(level.ra) or j2 != len(level.ca):
            return (level, i1, len(level.ra), j1, len(level.ca))
        return (level, 0, len(level.ra), 0, len(level.ca))
    if level.up is None:
        return None
    up, i, j = level.up
    return (up, i, i + 1, j, j + 1)


class Exits(ast.NodeTransformer):
    """turns every way of leaving a region into a return"""

    def __init__(self, live):
        self.live = live
        self.depth = 0

    def out(self, tag):
        return ast.parse('return (%r, (%s))' % (tag, ''.join(
            n + ', ' for n in self.live))).body[0]

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = \
        visit_FunctionDef

    def visit_loop(self, n):
        self.depth += 1
        n.body = self.stmts(n.body)
        self.depth -= 1
        n.orelse = self.stmts(n.orelse)
        return n

    visit_For = visit_While = visit_loop

    def stmts(self, body):
        return [self.visit(s) for s in body]

    def visit_Break(self, n):
        return n if self.depth else self.out('break')

    def visit_Continue(self, n):
        return n if self.depth else self.out('continue')

    def visit_Return(self, n):
        n.value = ast.Tuple([ast.Constant('return'), n.value or
                             ast.Constant(None)], ast.Load())
        return n


def used(stmts):
    return {n.id for s in stmts for n in ast.walk(s)
            if isinstance(n, ast.Name)}


def outside(fn, region):
    """names used in a function apart from a region of it"""
    skip = {id(s) for s in region}
    out = set()
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if id(n) in skip:
            continue
        if isinstance(n, ast.Name):
            out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


def synthetic(fn, region, params, live):
    body = [copy.deepcopy(s) for s in region]
    ex = Exits(live)
    body = ex.stmts(body) + [ex.out('next')]
    f = ast.parse('def region(%s):\n    pass' % ', '.join(params)).body[0]
    f.body = body
    f = ast.fix_missing_locations(f)
    for n in ast.walk(f):
        if isinstance(n, (ast.Nonlocal, ast.Global, ast.Yield,
                          ast.YieldFrom)):
            raise Unsupported('scope statement in a region')
    return f


def decide(ctx, h, rf, cf, rc, cc, budget, seconds):
    """(status, differences, boundary) of one region"""
    level, i1, i2, j1, j2 = h
    rr, cr = level.ra[i1:i2], level.ca[j1:j2]
    fa, fb = level.scope
    ra, ca = bound_order(rf), bound_order(cf)
    if ra != ca:
        return 'unknown', [], None
    na, nb = level.names
    set_a = set(assigned_names(rr)) if rr else set()
    set_b = set(assigned_names(cr)) if cr else set()
    out_a, out_b = outside(fa, rr), outside(fb, cr)
    live = sorted((set_a | set_b) & (out_a | out_b))
    extra = sorted(((na | nb) & (used(rr) | used(cr) | set(live))) -
                   set(ra))
    params = ra + extra
    try:
        f1 = synthetic(fa, rr, params, live)
        f2 = synthetic(fb, cr, params, live)
        g1, g2 = Func(rf.module, rf.cls, f1), Func(cf.module, cf.cls, f2)
        g1.is_static, g2.is_static = rf.is_static, cf.is_static
        g1.is_classmethod = rf.is_classmethod
        g2.is_classmethod = cf.is_classmethod
        a = ctx.summary('ref', g1, rc, ())
        b = ctx.summary('cur', g2, cc, ())
        ds = compare(a, b, budget, seconds)
    except (Unsupported, TooComplex, Budget, RecursionError):
        return 'unknown', [], None
    # variables crossing into or out of the region on one side only
    cross_a = ((na & used(rr)) | (set_a & out_a))
    cross_b = ((nb & used(cr)) | (set_b & out_b))
    inner_b = set_b - out_b - set(live)
    foreign = {n for n in cross_b - cross_a if n not in inner_b}
    first = min([s.lineno for s in cr] or [cf.line])
    for d in ds:
        if not d.line or d.line == f2.lineno:
            d.line = first
    return ('diff' if ds else 'same'), ds, foreign


def bound_order(f):
    a = f.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + [
        p.arg for p in (a.vararg, a.kwarg) if p is not None]


def region_compare(ctx, rf, cf, rc, cc, budget=40000, seconds=8):
    """('same' | 'diff' | 'unknown', differences, number of regions)"""
    a, b = relined(rf.node), relined(cf.node)
    if header(a) != header(b):
        return 'unknown', [], 0
    out = []
    names = (bound(a), bound(b))
    hunks(Level(a.body, b.body, None, (a, b), names), out)
    left = []
    for h in out:
        st, ds, foreign = decide(ctx, h, rf, cf, rc, cc, budget, seconds)
        if st != 'same':
            left.append((h, st, ds, foreign))
    if not left:
        return 'same', [], len(out)
    # several differing regions are only judged together
    h, st, ds, foreign = left[0]
    if len(left) > 1:
        h = common([x[0] for x in left])
        if h is None:
            return 'unknown', [], len(out)
        st, ds, foreign = decide(ctx, h, rf, cf, rc, cc, budget, seconds)
    best = None
    while True:
        if st == 'same':
            return 'same', [], len(out)
        if st == 'diff':
            best = (ds, foreign)
        h = enlarge(h)
        if h is None or h[0].up is None and \
                h[1:] == (0, len(h[0].ra), 0, len(h[0].ca)):
            break
        st, ds, foreign = decide(ctx, h, rf, cf, rc, cc, budget, seconds)
        if st == 'unknown' and best is not None:
            break
    if best is None or best[1]:
        return 'unknown', [], len(out)
    return 'diff', best[0], len(out)


def common(hs):
    """the smallest region covering all of them"""
    def path(h):
        p = [h]
        level = h[0]
        while level.up is not None:
            up, i, j = level.up
            p.append((up, i, i + 1, j, j + 1))
            level = up
        return p
    paths = [path(h) for h in hs]
    for x in paths[0]:
        level = x[0]
        spans = []
        for p in paths:
            s = [y for y in p if y[0] is level]
            if not s:
                break
            spans.append(s[0])
        if len(spans) == len(paths):
            return (level, min(s[1] for s in spans),
                    max(s[2] for s in spans), min(s[3] for s in spans),
                    max(s[4] for s in spans))
    return None


def relined(node):
    """copy without docstrings which keeps line numbers"""
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        body = getattr(n, 'body', None)
        if isinstance(body, list) and body and isinstance(
                body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            n.body = body[1:] or [ast.copy_location(ast.Pass(), body[0])]
    return node
