"""Turns a comparison result into holds / violation / abstain.

A difference is only reported when both sides are in the normal form: where
the current tree contains a construct the normal form does not cover and the
contract does not have there (a residual loop, an exception handler turned
into a value, reflective or iterator plumbing), the operation is listed as
undecided instead.
"""
import ast

from .terms import Node

STRUCT = {'fix', 'exc', 'excval', 'cyclic', 'localclass'}
PLUMBING = ('itertools.', 'functools.', 'operator.', 'map', 'filter', 'iter',
            'next', 'getattr', 'setattr', 'vars', 'globals', 'locals',
            'eval', 'exec', 'collections.deque', 'reduce')


def structure(n, memo):
    """{tag: True} of constructs outside the normal form"""
    r = memo.get(n)
    if r is not None:
        return r
    out = set()
    if n.op in STRUCT:
        out.add(n.op)
    if n.op == 'ext' and isinstance(n.args[0], str):
        for p in PLUMBING:
            if n.args[0] == p or p.endswith('.') and n.args[0].startswith(p):
                out.add(p)
    memo[n] = out
    for a in nodes(n.args):
        out |= structure(a, memo)
    return out


def nodes(xs):
    for x in xs:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, (tuple, list)):
            yield from nodes(x)


def foreign(d, memo):
    if d.cur is None:
        return set()
    a = structure(d.ref, memo) if d.ref is not None else set()
    return structure(d.cur, memo) - a


def lost(d, memo):
    """a residual loop of the contract which became something else"""
    if d.cur is None or d.ref is None:
        return set()
    return {'fix'} & (structure(d.ref, memo) - structure(d.cur, memo))


LOOPS = (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp,
         ast.GeneratorExp, ast.Try, ast.With, ast.ClassDef)


def shape(repo, other, f, seen):
    """the loops and handlers of a function and of helpers only it has"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, LOOPS):
            t = type(n).__name__
            if isinstance(n, ast.For):
                t += ' ' + ast.unparse(n.iter)
            elif isinstance(n, ast.While):
                t += ' ' + ast.unparse(n.test)
            elif hasattr(n, 'generators'):
                t += ' ' + ' '.join(ast.unparse(g.iter)
                                    for g in n.generators)
            out.append(t)
        if isinstance(n, ast.Call):
            name = getattr(n.func, 'attr', getattr(n.func, 'id', None))
            if name in seen:
                continue
            if name not in names_of(other):
                for g in names_of(repo).get(name, ()):
                    seen.add(name)
                    out += shape(repo, other, g, seen)
    return out


def names_of(repo):
    r = repo.__dict__.get('_by_name')
    if r is None:
        r = repo._by_name = {}
        for f in repo.all_functions():
            r.setdefault(f.name, []).append(f)
    return r


def shapes(ctx, qual):
    a, b = ctx.lookup(ctx.ref, qual), ctx.lookup(ctx.cur, qual)
    if a is None or b is None:
        return [], []
    x = sorted(shape(ctx.ref, ctx.cur, a, set()))
    y = sorted(shape(ctx.cur, ctx.ref, b, set()))
    return x, y


def same_shape(ctx, qual):
    x, y = shapes(ctx, qual)
    return x == y


def rewritten(ctx, qual):
    """the loops were written anew, none was just dropped"""
    x, y = shapes(ctx, qual)
    return x != y and len(y) >= len(x)


def oddities(ctx, r, memo):
    new = rewritten(ctx, r.qual)
    return [foreign(d, memo) | (lost(d, memo) if new else set())
            for d in r.diffs]


def called(f):
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            out.add(getattr(n.func, 'attr', getattr(n.func, 'id', None)))
    return out


def reused(ctx, r):
    """the operation calls another package function for what it did itself
    (or the other way round): decided with those functions expanded"""
    a, b = ctx.lookup(ctx.ref, r.qual), ctx.lookup(ctx.cur, r.qual)
    if a is None or b is None or not hasattr(b, 'node'):
        return False
    x, y = called(a), called(b)
    for n in list(y - x):
        if n not in names_of(ctx.ref):
            for g in names_of(ctx.cur).get(n, ()):
                y |= called(g)
    force = set()
    for n in (x ^ y) - {a.name}:
        fs = names_of(ctx.ref).get(n, ())
        own = [f for f in fs if a.cls is not None and f.cls is not None and
               f.cls.qual == a.cls.qual]
        fs = own or fs
        if len(fs) == 1:
            force.add(fs[0].qual)
    if not force:
        return False
    return ctx.forced(r.qual, tuple(sorted(force))).status == 'same'


def classify(ctx, r):
    if r.status in ('same', 'identical'):
        return 'holds', ''
    if r.status == 'unknown':
        return 'abstain', r.note or 'not analysable'
    memo = {}
    odd = oddities(ctx, r, memo)
    if any(odd) and not same_shape(ctx, r.qual):
        crisp = [d for d, o in zip(r.diffs, odd) if not o and
                 d.cur is not None and d.ref is not None]
        if not crisp:
            return 'abstain', 'constructs outside the normal form: %s' % (
                ', '.join(sorted(set().union(*odd))))
        r.diffs = crisp
    if reused(ctx, r):
        return 'holds', ''
    # a private helper is judged through the operations which use it
    if ctx.is_helper(r.qual) or ctx.calls_changed_helper(r.qual):
        return 'abstain', 'judged through its callers'
    return 'violation', ''


def force_retry(ctx, q, r):
    """decide q again with changed private helpers expanded into callers"""
    if r.status != 'diff':
        return None
    helpers = ctx.changed_helpers()
    force = tuple(sorted(helpers))
    if not force:
        return None
    if ctx.is_helper(q):
        worst = ('holds', '')
        for c in ctx.callers(q):
            rc = ctx.forced(c, force)
            v = forced_verdict(ctx, rc)
            if v[0] == 'violation':
                # only the helper itself is reported
                return v
            if v[0] == 'abstain':
                worst = v
        return worst
    rc = ctx.forced(q, force)
    v = forced_verdict(ctx, rc)
    if v[0] == 'violation':
        r.diffs = rc.diffs
    return v


def forced_verdict(ctx, rc):
    if rc.status in ('same', 'identical'):
        return 'holds', ''
    if rc.status != 'diff':
        return 'abstain', rc.note
    memo = {}
    odd = oddities(ctx, rc, memo)
    if all(odd) and not same_shape(ctx, rc.qual):
        return 'abstain', 'constructs outside the normal form'
    return 'violation', ''
