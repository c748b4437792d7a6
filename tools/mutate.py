"""Sensitivity of the checks: mutants of the current source, in memory.

python3 tools/mutate.py [--root DIR] [--per N] [--seed S] [--jobs J] pattern...
Prints the mutants which no contract check reports.
"""
import argparse
import ast
import copy
import multiprocessing
import os
import random
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(30000)

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult}


def is_log(n):
    s = ast.unparse(n)
    return 'logg' in s or s.startswith('print(') or s.startswith('msg') or \
        'tqdm' in s or 'warnings' in s or '.format(' in s


def strings_ok(n, parents):
    p = parents.get(n)
    while p is not None:
        if isinstance(p, (ast.Raise, ast.Assert)):
            return False
        if isinstance(p, ast.Expr) or isinstance(p, (
                ast.Assign, ast.AugAssign)):
            return not is_log(p)
        p = parents.get(p)
    return True


def sites(fn):
    """[(description, mutator(node copy root) )] by node path"""
    parents = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    out = []
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        q = n
        skip = False
        while q in parents:
            if isinstance(q, ast.Raise) or isinstance(q, ast.expr) and \
                    q in fn.decorator_list:
                skip = True
            if isinstance(q, ast.Assert) and parents[q] is not None and \
                    n is not q and q.msg is not None and any(
                        x is n for x in ast.walk(q.msg)):
                skip = True
            if isinstance(q, (ast.Expr, ast.Assign, ast.AugAssign)) and \
                    is_log(q):
                skip = True
            if isinstance(q, ast.arguments):
                skip = True
            q = parents[q]
        if skip or n is fn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(
                n.ops[0]) in CMP:
            out.append(('compare', i))
        if isinstance(n, ast.BoolOp):
            out.append(('andor', i))
            out.append(('dropcond', i))
        if isinstance(n, (ast.If, ast.IfExp)) and not (
                '__name__' in ast.unparse(n.test)):
            out.append(('negate', i))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod)):
            out.append(('arith', i))
            if isinstance(n.op, (ast.Sub, ast.Div)):
                out.append(('swapop', i))
        if isinstance(n, ast.Constant) and not isinstance(
                n.value, (str, bytes)) and n.value is not None and \
                n.value is not Ellipsis:
            out.append(('const', i))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                strings_ok(n, parents) and not isinstance(
                    parents[n], (ast.Expr, ast.JoinedStr)):
            out.append(('string', i))
        if isinstance(n, ast.Call) and not is_log(n):
            if len(n.args) >= 2:
                out.append(('swapargs', i))
            if n.keywords and n.keywords[-1].arg and ast.unparse(
                    n.func).split('.')[-1] != 'property':
                out.append(('dropkw', i))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                isinstance(n, ast.Expr) and isinstance(
                    n.value, ast.Constant)) and not is_log(n):
            out.append(('dropstmt', i))
        if isinstance(n, ast.Continue):
            out.append(('breakcont', i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                            ast.USub)):
            out.append(('dropunary', i))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                n.attr in SIBLING:
            out.append(('sibling', i))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.append(('name', i))
        if isinstance(n, ast.Slice) and (n.lower or n.upper):
            out.append(('slice', i))
        if isinstance(n, ast.Return) and n.value is not None and isinstance(
                n.value, ast.Tuple) and len(n.value.elts) > 1:
            out.append(('swapret', i))
        if isinstance(n, (ast.For,)) :
            out.append(('skipfirst', i))
    return out


SIBLING = {'reduce_sum': 'reduce_mean', 'reduce_mean': 'reduce_sum',
           'min': 'max', 'max': 'min', 'argmin': 'argmax',
           'argmax': 'argmin', 'sin': 'cos', 'cos': 'sin', 'exp': 'expm1',
           'zeros': 'ones', 'ones': 'zeros', 'zeros_like': 'ones_like',
           'ones_like': 'zeros_like', 'append': 'extend',
           'reduce_max': 'reduce_min', 'reduce_min': 'reduce_max',
           'logical_and': 'logical_or', 'logical_or': 'logical_and',
           'settings': 'mutable_settings', 'lower': 'upper',
           'maximum': 'minimum', 'minimum': 'maximum',
           'cumsum': 'sum', 'keys': 'values', 'any': 'all', 'all': 'any',
           'int32': 'int64', 'float32': 'float64', 'sum': 'mean',
           'mean': 'sum', 'arccos': 'arcsin', 'acos': 'asin'}


def mutate(fn, kind, i, rnd):
    fn = copy.deepcopy(fn)
    n = list(ast.walk(fn))[i]
    parents = {}
    for p in ast.walk(fn):
        for c in ast.iter_child_nodes(p):
            parents[c] = p

    def replace(old, new):
        p = parents[old]
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
    before = ast.unparse(n)
    if kind == 'compare':
        n.ops = [CMP[type(n.ops[0])]()]
    elif kind == 'andor':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'dropcond':
        n.values.pop(rnd.randrange(len(n.values)))
        if len(n.values) == 1:
            replace(n, n.values[0])
    elif kind == 'negate':
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    elif kind == 'arith':
        n.op = BIN[type(n.op)]()
    elif kind == 'swapop':
        n.left, n.right = n.right, n.left
    elif kind == 'const':
        if isinstance(n.value, bool):
            n.value = not n.value
        elif isinstance(n.value, int):
            n.value = n.value + 1
        else:
            n.value = n.value * 2 + 0.5
    elif kind == 'string':
        n.value = n.value + '_x'
    elif kind == 'swapargs':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'dropkw':
        n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif kind == 'dropstmt':
        replace(n, ast.Pass())
    elif kind == 'breakcont':
        replace(n, ast.Break())
    elif kind == 'dropunary':
        replace(n, n.operand)
    elif kind == 'sibling':
        n.attr = SIBLING[n.attr]
    elif kind == 'name':
        loc = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name)
                      and isinstance(x.ctx, ast.Store)} |
                     {a.arg for a in fn.args.args} - {'self'})
        loc = [x for x in loc if x != n.id]
        if not loc or n.id not in loc and n.id not in [
                a.arg for a in fn.args.args] and n.id not in {
                x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and
                isinstance(x.ctx, ast.Store)} or n.id in ('self', 'cls'):
            return None
        n.id = rnd.choice(loc)
    elif kind == 'slice':
        if n.lower is not None:
            n.lower = None
        else:
            n.upper = None
    elif kind == 'swapret':
        e = n.value.elts
        e[0], e[1] = e[1], e[0]
    elif kind == 'skipfirst':
        n.iter = ast.parse('list(%s)[1:]' % ast.unparse(n.iter),
                           mode='eval').body
    ast.fix_missing_locations(fn)
    after = ast.unparse(n)
    return fn, '%s line %s: %s  =>  %s' % (
        kind, getattr(n, 'lineno', '?'), before[:120], after[:120])


_ctx = {}


def work(job):
    qual, per, seed, root, kinds = job
    from sa.contract import Contract, Deadline
    from sa.verdict import classify, force_retry
    if root not in _ctx:
        _ctx[root] = Contract(os.path.join(H, 'spec', 'ref'), root)
    ctx = _ctx[root]
    f = ctx.lookup(ctx.cur, qual)
    if f is None or ctx.lookup(ctx.ref, qual) is None:
        return qual, 0, 0, [], 0
    orig = f.node
    rnd = random.Random('%s-%s' % (qual, seed))
    ss = sites(orig)
    if kinds:
        ss = [s for s in ss if s[0] in kinds]
    rnd.shuffle(ss)
    done = caught = und = 0
    survivors = []
    for kind, i in ss:
        if done >= per:
            break
        m = mutate(orig, kind, i, rnd)
        if m is None or ast.dump(m[0]) == ast.dump(orig):
            continue
        f.node = m[0]
        ctx.results, ctx.forced_memo, ctx.helpers = {}, {}, []
        ctx.limit = 40
        try:
            r = ctx._check(qual)
            helper = ctx.is_helper(qual)
            if r.status == 'diff' and helper:
                ctx.helpers = [qual]
            v, why = classify(ctx, r)
            if v == 'abstain' and r.status == 'diff':
                v2 = force_retry(ctx, qual, r)
                if v2:
                    v, why = v2
        except Exception as e:
            v, why = 'CRASH', repr(e)
        finally:
            f.node = orig
        done += 1
        if v == 'violation':
            caught += 1
        else:
            und += v == 'abstain'
            survivors.append((v, why, m[1]))
    return qual, done, caught, survivors, und


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--per', type=int, default=8)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--kinds', default='')
    ap.add_argument('patterns', nargs='*', default=['*'])
    a = ap.parse_args()
    from sa.contract import Contract
    ctx = Contract(os.path.join(H, 'spec', 'ref'), a.root)
    qs = [q for q in ctx.subjects(a.patterns or ['*']) if '<' not in q]
    kinds = set(a.kinds.split(',')) if a.kinds else set()
    jobs = [(q, a.per, a.seed, a.root, kinds) for q in qs]
    tot = c = u = 0
    with multiprocessing.Pool(a.jobs) as pool:
        for q, n, k, surv, und in pool.imap_unordered(work, jobs,
                                                      chunksize=2):
            tot += n
            c += k
            u += und
            for v, why, text in surv:
                print('%s %s [%s] %s' % (v, q, why[:80], text), flush=True)
    print('mutants %d caught %d undecided %d' % (tot, c, u))


if __name__ == '__main__':
    main()
