"""Obligations about components, configurations and stored files."""
import ast

from . import Ob, rule
from .flow import after, calls_of, dotted, may_fail, parents, stmt_of

COMP = 'egenerator.manager.component'


def stores(tree, attr):
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(
                n.ctx, ast.Store):
            yield n
        elif isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and \
                len(n.args) > 1 and isinstance(
                    n.args[1], ast.Constant) and n.args[1].value == attr:
            yield n


def stored_value(par, n):
    if isinstance(n, ast.Call):
        return n.args[2]
    s = stmt_of(par, n)
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if t is n:
                return s.value
            if isinstance(t, ast.Tuple) and isinstance(
                    s.value, ast.Tuple) and n in t.elts and len(
                    t.elts) == len(s.value.elts):
                return s.value.elts[t.elts.index(n)]
    return None


@rule('guards', 2)
def guards(ctx):
    """The mark 'configured' is set only by configure and load, as the last
    step after which nothing of the call can fail."""
    obs = []
    cur = ctx.cur
    sites = []
    for f in cur.all_functions():
        par = None
        for n in stores(f.node, '_is_configured'):
            par = par or parents(f.node)
            v = stored_value(par, n)
            if isinstance(v, ast.Constant) and not v.value:
                obs.append(Ob('guards', f.qual, True, 'starts unconfigured',
                              f.path, n.lineno))
                continue
            sites.append((f, stmt_of(par, n), n.lineno))
    seen = set()
    while sites:
        f, s, line = sites.pop()
        if (f.qual, line) in seen:
            continue
        seen.add((f.qual, line))
        bad = None
        for t in after(f.node, s):
            if isinstance(t, (ast.For, ast.While)) and any(
                    x is s for x in ast.walk(t)):
                bad = None
                continue
            bad = may_fail(t)
            if bad is not None:
                break
        if bad is not None:
            obs.append(Ob(
                'guards', f.qual, False, 'marks the component configured '
                'before %r, which can still fail' % ast.unparse(bad)[:80],
                f.path, line))
            continue
        if f.name in ('configure', 'load') and f.cls is not None:
            obs.append(Ob('guards', f.qual, True, 'marked configured last',
                          f.path, line))
            continue
        # a helper: its calls have to be the last step of the callers
        found = False
        for g in cur.all_functions():
            if g is f:
                continue
            for c in calls_of(g.node, f.name):
                found = True
                sites.append((g, stmt_of(parents(g.node), c), c.lineno))
        if not found:
            obs.append(Ob(
                'guards', f.qual, False, 'marks a component configured '
                'outside of configure and load', f.path, line))
    return obs
