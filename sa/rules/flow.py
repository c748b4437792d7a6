"""Small control-flow helpers on syntax trees."""
import ast


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def stmt_of(par, n):
    while not isinstance(n, ast.stmt):
        n = par[n]
    return n


def blocks(s):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(s, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(s, 'handlers', ()):
        yield h.body
    for c in getattr(s, 'cases', ()):
        yield c.body


def after(fn, stmt):
    """statements of fn which may run after stmt has completed (in the same
    call), as a list of statements; a compound statement counts as a whole
    where it follows, and a loop around stmt counts again as a whole"""
    par = parents(fn)
    out = []
    s = stmt
    while s is not fn:
        p = par[s]
        if isinstance(s, ast.stmt):
            for b in blocks(p):
                if any(x is s for x in b):
                    i = [x is s for x in b].index(True)
                    rest = b[i + 1:]
                    stop = False
                    for r in rest:
                        out.append(r)
                        if isinstance(r, (ast.Return, ast.Raise,
                                          ast.Continue, ast.Break)):
                            stop = True
                            break
                    if stop and isinstance(out[-1], (ast.Return,
                                                     ast.Raise)):
                        return out
                    if isinstance(s, (ast.Return, ast.Raise)):
                        return out
            if isinstance(p, (ast.For, ast.While)):
                out.append(p)
        s = p
    return out


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return None


LOG = ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log')


def is_log_call(n):
    d = dotted(n.func)
    return d is not None and (d.rpartition('.')[2] in LOG and (
        'log' in d.lower()) or d == 'print' or d.startswith('warnings.'))


def harmless_call(n):
    d = dotted(n.func)
    if d is None:
        return isinstance(n.func, ast.Attribute) and n.func.attr in (
            'format', 'join', 'items', 'keys', 'values')
    return is_log_call(n) or d in (
        'len', 'str', 'repr', 'isinstance', 'type', 'list', 'dict', 'set',
        'tuple', 'sorted', 'bool') or d.rpartition('.')[2] in (
        'format', 'join', 'items', 'keys', 'values')


def may_fail(s):
    """the first node below s which can raise, or None"""
    for n in ast.walk(s):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return n
        if isinstance(n, ast.Call) and not harmless_call(n):
            return n
    return None


def calls_of(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(
                n.func, (ast.Attribute, ast.Name)) and getattr(
                n.func, 'attr', getattr(n.func, 'id', None)) == name:
            yield n


def name_of(n):
    return getattr(n, 'attr', getattr(n, 'id', None))
