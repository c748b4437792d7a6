#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites to every function of a tree.

usage: stress.py TRANSFORM SRC DST [seed]
Used to measure that the comparison stays quiet under refactoring.
"""
import ast
import copy
import os
import random
import shutil
import sys


def names_loaded(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            isinstance(n.ctx, ast.Load)}


def names_stored(node):
    out = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
           not isinstance(n.ctx, ast.Load)}
    out |= {n.name for n in ast.walk(node) if isinstance(
        n, (ast.FunctionDef, ast.ClassDef))}
    for n in ast.walk(node):
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def comp_targets(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            out |= names_stored(n.target)
        if isinstance(n, ast.Lambda):
            out |= {a.arg for a in n.args.args}
    return out


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def store(i):
    return name(i, ast.Store())


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


class Base(ast.NodeTransformer):
    """calls self.func on every outermost function"""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.cls = None
        self.new_methods = []
        self.new_functions = []
        self.count = 0

    def visit_Module(self, m):
        body = []
        for s in m.body:
            body.append(self.visit(s))
        i = 0
        last_import = 0
        for k, s in enumerate(body):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                last_import = k + 1
        m.body = body[:last_import] + self.new_functions + \
            body[last_import:]
        return m

    def visit_ClassDef(self, c):
        old, self.cls = self.cls, c
        self.new_methods = []
        c.body = [self.visit(s) for s in c.body]
        c.body += self.new_methods
        self.new_methods = []
        self.cls = old
        return c

    def visit_FunctionDef(self, f):
        return self.func(f)

    def func(self, f):
        return f

    def fresh(self, p='tmp'):
        self.n += 1
        return '%s_%d_' % (p, self.n)


def blocks(node):
    """all statement lists below node, without nested functions' bodies"""
    for field in ('body', 'orelse', 'finalbody'):
        b = getattr(node, field, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield node, field, b
            for s in b:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    for x in blocks(s):
                        yield x
    for h in getattr(node, 'handlers', []):
        for x in blocks(h):
            yield x


class Noop(Base):
    def func(self, f):
        i = 1 if is_doc(f.body[0]) else 0
        k = self.rng.randrange(3)
        s = [ast.Pass(), ast.parse('_unused = None').body[0],
             ast.parse('0').body[0]][k]
        f.body.insert(i, s)
        self.count += 1
        return f


class Rename(Base):
    def func(self, f):
        bad = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                bad |= names_stored(n)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bad.add(n.name)
                if isinstance(n, ast.FunctionDef):
                    bad |= {a.arg for a in n.args.args + n.args.kwonlyargs}
                    for v in (n.args.vararg, n.args.kwarg):
                        if v:
                            bad.add(v.arg)
            if isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
            if isinstance(n, ast.Lambda):
                bad |= {a.arg for a in n.args.args}
        loc = names_stored(f) - bad
        m = {x: 'r_' + x for x in loc}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
                self.count += 1
        return f


class Temps(Base):
    """name the arguments of calls / returned values"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and \
                        not isinstance(s.value, (ast.Name, ast.Constant)):
                    t = self.fresh()
                    out.append(ast.Assign(targets=[store(t)], value=s.value))
                    s.value = name(t)
                    self.count += 1
                elif isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)) \
                        and isinstance(s.value, ast.Call) and \
                        not isinstance(s.value.func, ast.Lambda):
                    c = s.value
                    pure = True
                    for i, a in enumerate(c.args):
                        if isinstance(a, (ast.Name, ast.Constant,
                                          ast.Starred, ast.Lambda,
                                          ast.GeneratorExp)):
                            continue
                        if isinstance(c.func, ast.Attribute) and not \
                                isinstance(c.func.value, (
                                    ast.Name, ast.Attribute)):
                            continue
                        if dotted(c.func) and 'logg' in dotted(c.func):
                            continue
                        t = self.fresh()
                        out.append(ast.Assign(targets=[store(t)], value=a))
                        c.args[i] = name(t)
                        self.count += 1
                    for k in c.keywords:
                        if isinstance(k.value, (ast.Name, ast.Constant,
                                                ast.Lambda)):
                            continue
                        if k.arg is None or (dotted(c.func) and 'logg' in
                                             dotted(c.func)):
                            continue
                        if isinstance(c.func, ast.Attribute) and not \
                                isinstance(c.func.value, (
                                    ast.Name, ast.Attribute)):
                            continue
                        t = self.fresh()
                        out.append(ast.Assign(targets=[store(t)],
                                              value=k.value))
                        k.value = name(t)
                        self.count += 1
                out.append(s)
            setattr(owner, field, out)
        return f


def dotted(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        p.append(n.id)
        return '.'.join(reversed(p))
    return None


class TempCond(Base):
    """name conditions of if statements"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.If) and not (
                        field == 'orelse' and len(b) == 1 and isinstance(
                            owner, ast.If)):
                    t = self.fresh('cond')
                    out.append(ast.Assign(targets=[store(t)], value=s.test))
                    s.test = name(t)
                    self.count += 1
                out.append(s)
            setattr(owner, field, out)
        return f


class Invert(Base):
    def func(self, f):
        for n in ast.walk(f):
            if isinstance(n, ast.If) and n.orelse:
                n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
                n.body, n.orelse = n.orelse, n.body
                self.count += 1
            elif isinstance(n, ast.IfExp):
                n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
                n.body, n.orelse = n.orelse, n.body
                self.count += 1
        return f


class NegCmp(Base):
    """a < b -> not (a >= b), a == b -> not a != b, a<b -> b>a"""

    def func(self, f):
        me = self

        class V(ast.NodeTransformer):
            def visit_Compare(self, c):
                self.generic_visit(c)
                if len(c.ops) != 1:
                    return c
                sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                      ast.GtE: ast.LtE}
                o = type(c.ops[0])
                if o in sw:
                    me.count += 1
                    return ast.Compare(left=c.comparators[0], ops=[sw[o]()],
                                       comparators=[c.left])
                ng = {ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                      ast.In: ast.NotIn, ast.NotIn: ast.In}
                if o in ng:
                    me.count += 1
                    return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(
                        left=c.left, ops=[ng[o]()],
                        comparators=c.comparators))
                return c
        return V().visit(f)


class ElseReturn(Base):
    """if c: ...return; rest  ->  if c: ... else: rest"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            b = getattr(owner, field)
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and \
                        isinstance(s.body[-1], (ast.Return, ast.Raise)) and \
                        i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    setattr(owner, field, b[:i + 1])
                    self.count += 1
                    break
        return f


class Guard(Base):
    """if c: body (last stmt of loop) -> if not c: continue; body"""

    def func(self, f):
        for n in list(ast.walk(f)):
            if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) \
                    and not n.body[-1].orelse:
                s = n.body.pop()
                n.body.append(ast.If(test=ast.UnaryOp(
                    op=ast.Not(), operand=s.test), body=[ast.Continue()],
                    orelse=[]))
                n.body.extend(s.body)
                self.count += 1
        return f


class SingleExit(Base):
    """replace returns in if/else chains by a result variable"""

    def func(self, f):
        b = f.body
        rets = [n for n in ast.walk(f) if isinstance(n, ast.Return)]
        if any(isinstance(n, (ast.FunctionDef, ast.Yield, ast.Lambda))
               for n in ast.walk(f) if n is not f):
            return f
        if len(rets) < 2 or len(b) < 2:
            return f
        # pattern: ... if c: return A ; return B
        if isinstance(b[-1], ast.Return) and isinstance(b[-2], ast.If) and \
                len(b[-2].body) >= 1 and isinstance(
                    b[-2].body[-1], ast.Return) and not b[-2].orelse and \
                b[-1].value is not None and b[-2].body[-1].value is not None:
            s = b[-2]
            s.body[-1] = ast.Assign(targets=[store('result_')],
                                    value=s.body[-1].value)
            s.orelse = [ast.Assign(targets=[store('result_')],
                                   value=b[-1].value)]
            b[-1] = ast.Return(value=name('result_'))
            self.count += 1
        return f


class Comp2Loop(Base):
    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                v = getattr(s, 'value', None)
                if isinstance(s, ast.Assign) and isinstance(
                        v, (ast.ListComp, ast.DictComp)) and isinstance(
                        s.targets[0], ast.Name) and s.targets[0].id not in \
                        names_loaded(v):
                    t = s.targets[0].id
                    if isinstance(v, ast.ListComp):
                        init = ast.List(elts=[], ctx=ast.Load())
                        body = [ast.Expr(value=ast.Call(
                            func=ast.Attribute(value=name(t), attr='append',
                                               ctx=ast.Load()),
                            args=[v.elt], keywords=[]))]
                    else:
                        init = ast.Dict(keys=[], values=[])
                        body = [ast.Assign(targets=[ast.Subscript(
                            value=name(t), slice=v.key, ctx=ast.Store())],
                            value=v.value)]
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs):
                            body = [ast.If(test=c, body=body, orelse=[])]
                        body = [ast.For(target=g.target, iter=g.iter,
                                        body=body, orelse=[])]
                    # avoid clobbering names
                    tn = set()
                    for g in v.generators:
                        tn |= names_stored(g.target)
                    m = {x: self.fresh(x) for x in tn}
                    for bb in body:
                        for n in ast.walk(bb):
                            if isinstance(n, ast.Name) and n.id in m:
                                n.id = m[n.id]
                    out.append(ast.Assign(targets=[store(t)], value=init))
                    out.extend(body)
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


class Loop2Comp(Base):
    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.For) and len(s.body) == 1 and \
                        not s.orelse and out:
                    st = s.body[0]
                    cond = None
                    if isinstance(st, ast.If) and not st.orelse and \
                            len(st.body) == 1:
                        cond, st = st.test, st.body[0]
                    if isinstance(st, ast.Expr) and isinstance(
                            st.value, ast.Call) and isinstance(
                            st.value.func, ast.Attribute) and \
                            st.value.func.attr == 'append' and isinstance(
                                st.value.func.value, ast.Name):
                        t = st.value.func.value.id
                        p = out[-1]
                        if isinstance(p, ast.Assign) and isinstance(
                                p.targets[0], ast.Name) and \
                                p.targets[0].id == t and isinstance(
                                    p.value, ast.List) and \
                                not p.value.elts and t not in names_loaded(
                                    st.value.args[0]) | names_loaded(s.iter):
                            out[-1] = ast.Assign(
                                targets=[store(t)], value=ast.ListComp(
                                    elt=st.value.args[0], generators=[
                                        ast.comprehension(
                                            target=s.target, iter=s.iter,
                                            ifs=[cond] if cond else [],
                                            is_async=0)]))
                            self.count += 1
                            i += 1
                            continue
                out.append(s)
                i += 1
            setattr(owner, field, out)
        return f


class IndexLoop(Base):
    """for x in xs -> for i in range(len(xs)): x = xs[i]  (list-like only)"""

    def func(self, f):
        for n in ast.walk(f):
            if not isinstance(n, ast.For):
                continue
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(
                    it.func, ast.Name) and it.func.id == 'enumerate' and \
                    len(it.args) == 1 and isinstance(
                        it.args[0], (ast.Name, ast.Attribute)) and \
                    isinstance(n.target, ast.Tuple):
                i, x = n.target.elts
                if not isinstance(i, ast.Name):
                    continue
                n.target = i
                n.iter = ast.parse('range(len(%s))' % ast.unparse(
                    it.args[0]), mode='eval').body
                n.body.insert(0, ast.Assign(targets=[x], value=ast.Subscript(
                    value=it.args[0], slice=name(i.id), ctx=ast.Load())))
                self.count += 1
            elif isinstance(it, ast.Call) and isinstance(
                    it.func, ast.Name) and it.func.id == 'zip' and \
                    all(isinstance(a, (ast.Name, ast.Attribute))
                        for a in it.args) and isinstance(
                        n.target, ast.Tuple):
                i = self.fresh('i')
                els = n.target.elts
                n.target = store(i)
                n.iter = ast.parse('range(len(%s))' % ast.unparse(
                    it.args[0]), mode='eval').body
                n.body = [ast.Assign(targets=[x], value=ast.Subscript(
                    value=a, slice=name(i), ctx=ast.Load()))
                    for x, a in zip(els, it.args)] + n.body
                self.count += 1
            elif isinstance(it, (ast.Name,)) and it.id.endswith('s'):
                i = self.fresh('i')
                x = n.target
                n.target = store(i)
                n.iter = ast.parse('range(len(%s))' % it.id,
                                   mode='eval').body
                n.body.insert(0, ast.Assign(targets=[x], value=ast.Subscript(
                    value=it, slice=name(i), ctx=ast.Load())))
                self.count += 1
        return f


class WhileLoop(Base):
    """for i in range(n) / enumerate(xs) -> while"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.For) and not s.orelse and not any(
                        isinstance(x, ast.Continue) for x in ast.walk(s)):
                    it = s.iter
                    if isinstance(it, ast.Call) and isinstance(
                            it.func, ast.Name) and it.func.id == 'range' \
                            and len(it.args) == 1 and isinstance(
                                s.target, ast.Name):
                        i = self.fresh('i')
                        lim = it.args[0]
                        out.append(ast.Assign(targets=[store(i)],
                                              value=ast.Constant(0)))
                        out.append(ast.While(
                            test=ast.Compare(left=name(i), ops=[ast.Lt()],
                                             comparators=[lim]),
                            body=[ast.Assign(targets=[s.target],
                                             value=name(i))] + s.body +
                            [ast.AugAssign(target=store(i), op=ast.Add(),
                                           value=ast.Constant(1))],
                            orelse=[]))
                        self.count += 1
                        continue
                    if isinstance(it, ast.Name) and it.id.endswith('s'):
                        i = self.fresh('i')
                        out.append(ast.Assign(targets=[store(i)],
                                              value=ast.Constant(0)))
                        out.append(ast.While(
                            test=ast.Compare(
                                left=name(i), ops=[ast.Lt()],
                                comparators=[ast.Call(
                                    func=name('len'), args=[it],
                                    keywords=[])]),
                            body=[ast.Assign(
                                targets=[s.target], value=ast.Subscript(
                                    value=it, slice=name(i),
                                    ctx=ast.Load()))] + s.body +
                            [ast.AugAssign(target=store(i), op=ast.Add(),
                                           value=ast.Constant(1))],
                            orelse=[]))
                        self.count += 1
                        continue
                out.append(s)
            setattr(owner, field, out)
        return f


class EnumLoop(Base):
    """for x in xs -> for _, x in enumerate(xs)"""

    def func(self, f):
        for n in ast.walk(f):
            if isinstance(n, ast.For) and not (isinstance(
                    n.iter, ast.Call) and isinstance(
                    n.iter.func, ast.Name) and n.iter.func.id in (
                    'enumerate', 'zip', 'range', 'iter')):
                n.target = ast.Tuple(elts=[store(self.fresh('i')), n.target],
                                     ctx=ast.Store())
                n.iter = ast.Call(func=name('enumerate'), args=[n.iter],
                                  keywords=[])
                self.count += 1
        return f


class IfExp2If(Base):
    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(
                        s.value, ast.IfExp) and len(s.targets) == 1:
                    v = s.value
                    out.append(ast.If(
                        test=v.test, body=[ast.Assign(
                            targets=[copy.deepcopy(s.targets[0])],
                            value=v.body)],
                        orelse=[ast.Assign(targets=s.targets,
                                           value=v.orelse)]))
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


class If2IfExp(Base):
    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.If) and len(s.body) == 1 and \
                        len(s.orelse) == 1 and all(
                            isinstance(x, ast.Assign) and len(x.targets) == 1
                            for x in s.body + s.orelse) and ast.dump(
                            s.body[0].targets[0]) == ast.dump(
                            s.orelse[0].targets[0]):
                    out.append(ast.Assign(
                        targets=s.body[0].targets, value=ast.IfExp(
                            test=s.test, body=s.body[0].value,
                            orelse=s.orelse[0].value)))
                    self.count += 1
                    continue
                if isinstance(s, ast.If) and len(s.body) == 1 and \
                        len(s.orelse) == 1 and all(
                            isinstance(x, ast.Return) and x.value is not None
                            for x in s.body + s.orelse):
                    out.append(ast.Return(value=ast.IfExp(
                        test=s.test, body=s.body[0].value,
                        orelse=s.orelse[0].value)))
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


class NestIf(Base):
    """if a and b: X  -> if a: if b: X"""

    def func(self, f):
        for n in ast.walk(f):
            if isinstance(n, ast.If) and not n.orelse and isinstance(
                    n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                vals = n.test.values
                body = n.body
                for v in reversed(vals[1:]):
                    body = [ast.If(test=v, body=body, orelse=[])]
                n.test, n.body = vals[0], body
                self.count += 1
        return f


class DeMorgan(Base):
    def func(self, f):
        me = self

        class V(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                if isinstance(n.test, ast.BoolOp):
                    op = ast.Or() if isinstance(n.test.op, ast.And) else \
                        ast.And()
                    n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(
                        op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v)
                                       for v in n.test.values]))
                    me.count += 1
                return n
        return V().visit(f)


class Format(Base):
    """'..{}..'.format(a) -> f-string"""

    def func(self, f):
        me = self

        class V(ast.NodeTransformer):
            def visit_Call(self, c):
                self.generic_visit(c)
                if isinstance(c.func, ast.Attribute) and \
                        c.func.attr == 'format' and isinstance(
                            c.func.value, ast.Constant) and isinstance(
                            c.func.value.value, str) and not c.keywords \
                        and not any(isinstance(a, ast.Starred)
                                    for a in c.args):
                    import string
                    vals = []
                    k = 0
                    for lit, fld, spec, conv in string.Formatter().parse(
                            c.func.value.value):
                        if lit:
                            vals.append(ast.Constant(lit))
                        if fld is None:
                            continue
                        if fld == '':
                            a = c.args[k]
                            k += 1
                        elif fld.isdigit():
                            a = c.args[int(fld)]
                        else:
                            return c
                        vals.append(ast.FormattedValue(
                            value=a, conversion=ord(conv) if conv else -1,
                            format_spec=ast.JoinedStr(
                                values=[ast.Constant(spec)])
                            if spec else None))
                    me.count += 1
                    return ast.JoinedStr(values=vals)
                return c
        return V().visit(f)


class AugToPlain(Base):
    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.AugAssign) and isinstance(
                        s.target, ast.Name) and not isinstance(
                        s.value, (ast.List, ast.ListComp)):
                    out.append(ast.Assign(
                        targets=[store(s.target.id)], value=ast.BinOp(
                            left=name(s.target.id), op=s.op,
                            right=s.value)))
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


class Extract(Base):
    """extract runs of statements into new private helpers"""
    frac = 0.5

    def func(self, f):
        is_meth = self.cls is not None
        deco = [ast.unparse(d) for d in f.decorator_list]
        if 'staticmethod' in deco or 'classmethod' in deco:
            is_meth = False
        selfn = f.args.args[0].arg if is_meth and f.args.args else None
        params = [a.arg for a in f.args.posonlyargs + f.args.args +
                  f.args.kwonlyargs]
        for v in (f.args.vararg, f.args.kwarg):
            if v:
                params.append(v.arg)
        allstored = names_stored(f) | set(params)
        nested = [n for n in ast.walk(f) if isinstance(
            n, (ast.FunctionDef, ast.Lambda)) and n is not f]
        cands = []
        for owner, field, b in blocks(f):
            for i in range(len(b)):
                for j in range(i + 2, min(len(b), i + 8) + 1):
                    cands.append((owner, field, i, j))
                # loops / ifs on their own
                if isinstance(b[i], (ast.For, ast.If)):
                    cands.append((owner, field, i, i + 1))
        self.rng.shuffle(cands)
        for owner, field, i, j in cands:
            b = getattr(owner, field)
            seg = b[i:j]
            if any(is_doc(s) for s in seg):
                continue
            bad = False
            for s in seg:
                loops = [s] if isinstance(s, (ast.For, ast.While)) else []
                for n in ast.walk(s):
                    if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom,
                                      ast.FunctionDef, ast.Lambda,
                                      ast.Global, ast.Nonlocal, ast.Import,
                                      ast.ImportFrom, ast.Delete)):
                        bad = True
                    if isinstance(n, (ast.Break, ast.Continue)) and not any(
                            inside(n, l) for l in ast.walk(s) if isinstance(
                                l, (ast.For, ast.While))):
                        bad = True
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id in (
                            'super', 'locals', 'vars'):
                        bad = True
            if bad:
                continue
            mod = ast.Module(body=seg, type_ignores=[])
            stored = names_stored(mod) - comp_only(mod)
            loaded = names_loaded(mod) - comp_only(mod)
            # names defined for sure before? approximate: params, or stored
            # before the segment at a dominating level
            prior = set(params)
            dom = dominating(f, owner, field, i)
            prior |= dom
            fv = (loaded | stored_maybe(seg)) & allstored
            ins = sorted(x for x in fv if x in prior and x != selfn)
            if comp_only(mod) & allstored:
                continue
            if any(x not in prior and not assigned_first(seg, x)
                   for x in (loaded & allstored)):
                continue
            inloop = any(isinstance(l, (ast.For, ast.While)) and any(
                inside(x, l) for x in seg) for l in ast.walk(f))
            outs = sorted(x for x in stored if used_outside(f, seg, x) or (
                inloop and x in loaded and not assigned_first(seg, x)))
            if any(x not in definitely(seg) and x not in prior
                   for x in outs):
                continue
            # nested functions capturing rebinding
            if any(x in names_loaded(n) for n in nested for x in stored):
                continue
            h = self.fresh('_helper')
            args = ([selfn] if is_meth and selfn else []) + ins
            body = list(seg)
            if outs:
                rv = name(outs[0]) if len(outs) == 1 else ast.Tuple(
                    elts=[name(x) for x in outs], ctx=ast.Load())
                body.append(ast.Return(value=rv))
            fd = ast.FunctionDef(
                name=h, args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                    kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=body, decorator_list=[], type_params=[])
            if is_meth and selfn:
                fn = ast.Attribute(value=name(selfn), attr=h, ctx=ast.Load())
                self.new_methods.append(fd)
            else:
                fn = name(h)
                self.new_functions.append(fd)
            call = ast.Call(func=fn, args=[name(a) for a in ins],
                            keywords=[])
            if not outs:
                st = ast.Expr(value=call)
            elif len(outs) == 1:
                st = ast.Assign(targets=[store(outs[0])], value=call)
            else:
                st = ast.Assign(targets=[ast.Tuple(
                    elts=[store(x) for x in outs], ctx=ast.Store())],
                    value=call)
            setattr(owner, field, b[:i] + [st] + b[j:])
            self.count += 1
            break
        return f


def inside(n, l):
    for s in l.body:
        for x in ast.walk(s):
            if x is n:
                # not inside nested loop only
                return True
    return False


def comp_only(mod):
    """names only bound by comprehensions"""
    ct = comp_targets(mod)
    direct = set()

    class V(ast.NodeVisitor):
        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if not isinstance(n.ctx, ast.Load):
                direct.add(n.id)
    V().visit(mod)
    loads = set()
    return ct - direct


def stored_maybe(seg):
    out = set()
    for s in seg:
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            out |= names_stored(s)
        if isinstance(s, ast.AugAssign):
            out |= names_stored(s)
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign):
                out |= names_stored(n.target)
    return out


def definitely(seg):
    out = set()
    for s in seg:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        out.add(n.id)
        elif isinstance(s, ast.If) and s.orelse:
            a = definitely(s.body)
            e = definitely(s.orelse)
            if isinstance(s.body[-1], ast.Raise):
                out |= e
            elif isinstance(s.orelse[-1], ast.Raise):
                out |= a
            else:
                out |= a & e
        elif isinstance(s, ast.With):
            out |= definitely(s.body)
            for it in s.items:
                if it.optional_vars is not None:
                    out |= names_stored(it.optional_vars)
    return out


def assigned_first(seg, x):
    for s in seg:
        if x in definitely([s]) and x not in names_loaded(s):
            return True
        if isinstance(s, ast.If) and x in definitely([s]) and \
                x not in names_loaded(s.test) and \
                assigned_first(s.body, x) and assigned_first(s.orelse, x):
            return True
        if x in names_loaded(s):
            # loop target
            if isinstance(s, ast.For) and x in names_stored(s.target) and \
                    x not in names_loaded(s.iter):
                continue
            for h in ('test', 'iter', 'items'):
                v = getattr(s, h, None)
                for w in (v if isinstance(v, list) else [v]):
                    if w is not None and x in names_loaded(w):
                        return False
            return isinstance(s, (ast.If, ast.With, ast.For)) and \
                assigned_first(s.body, x) and (
                    not getattr(s, 'orelse', []) or
                    x not in names_loaded(ast.Module(
                        body=s.orelse, type_ignores=[])) or
                    assigned_first(s.orelse, x))
    return True


def used_outside(f, seg, x):
    ids = set()
    for s in seg:
        for n in ast.walk(s):
            ids.add(id(n))
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id == x and id(n) not in ids and \
                isinstance(n.ctx, ast.Load):
            return True
    # loop carried: used inside a loop which encloses the segment
    return False


def dominating(f, owner, field, i):
    """names definitely assigned before position i of that block"""
    res = []

    def walk(node, acc):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(node, fld, None)
            if not (isinstance(b, list) and b and isinstance(
                    b[0], ast.stmt)):
                continue
            a = set(acc)
            if isinstance(node, ast.For) and fld == 'body':
                a |= names_stored(node.target)
            if isinstance(node, ast.With):
                for it in node.items:
                    if it.optional_vars is not None:
                        a |= names_stored(it.optional_vars)
            for k, s in enumerate(b):
                if node is owner and fld == field and k == i:
                    res.append(set(a))
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    walk(s, a)
                a |= definitely([s])
                if isinstance(s, ast.FunctionDef):
                    a.add(s.name)
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    a |= names_stored(s)
        for h in getattr(node, 'handlers', []):
            walk(h, acc)
    walk(f, set())
    return res[0] if res else set()


class Reorder(Base):
    """swap adjacent independent simple assignments"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            b = getattr(owner, field)
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if self.simple(s) and self.simple(t):
                    rs, ws = names_loaded(s), names_stored(s)
                    rt, wt = names_loaded(t), names_stored(t)
                    if not (ws & (rt | wt)) and not (wt & rs):
                        b[i], b[i + 1] = t, s
                        self.count += 1
                        i += 1
                i += 1
        return f

    def simple(self, s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1):
            return False
        t = s.targets[0]
        if not isinstance(t, ast.Name):
            return False
        for n in ast.walk(s.value):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if not d or not (d.startswith(('np.', 'tf.')) and
                                 'random' not in d or
                                 d in ('len', 'list', 'dict', 'int',
                                       'float', 'range', 'os.path.join')):
                    return False
        return True


class Hoist(Base):
    """bind repeated configuration look-ups to a local"""

    def func(self, f):
        cnt = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = ast.unparse(n)
                if d in ('self.configuration.config', 'self.tensors',
                         'self.data', 'self.data_trafo',
                         'self.configuration'):
                    cnt[d] = cnt.get(d, 0) + 1
        if any(isinstance(n, (ast.Attribute,)) and not isinstance(
                n.ctx, ast.Load) for n in ast.walk(f)):
            return f
        if any(isinstance(n, ast.FunctionDef) for n in ast.walk(f)
               if n is not f):
            return f
        me = self
        todo = [d for d, c in cnt.items() if c >= 2][:1]
        for d in todo:
            t = self.fresh('h')

            class V(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    if ast.unparse(n) == d and isinstance(n.ctx, ast.Load):
                        return name(t)
                    return self.generic_visit(n)
            i = 1 if is_doc(f.body[0]) else 0
            f.body = [V().visit(s) for s in f.body]
            f.body.insert(i, ast.parse('%s = %s' % (t, d)).body[0])
            self.count += 1
        return f


class KwArgs(Base):
    """self.method(a, b) positional <-> keyword is left to the package"""

    def __init__(self, rng):
        Base.__init__(self, rng)
        self.sigs = SIGS

    def func(self, f):
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and not any(isinstance(
                    a, ast.Starred) for a in n.args):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else (
                    n.func.id if isinstance(n.func, ast.Name) else None)
                ps = self.sigs.get(nm)
                if ps is None:
                    continue
                if isinstance(n.func, ast.Attribute) and not (
                        isinstance(n.func.value, ast.Name) and
                        n.func.value.id == 'self'):
                    continue
                if len(n.args) <= len(ps) and n.args:
                    kws = [ast.keyword(arg=p, value=a)
                           for p, a in zip(ps, n.args)]
                    n.args = []
                    n.keywords = kws + n.keywords
                    self.count += 1
        return f


SIGS = {}


def collect_sigs(src):
    seen = {}
    for dp, dn, fn in os.walk(src):
        for x in fn:
            if x.endswith('.py'):
                t = ast.parse(open(os.path.join(dp, x)).read())
                for c in ast.walk(t):
                    if isinstance(c, ast.ClassDef):
                        for f in c.body:
                            if isinstance(f, ast.FunctionDef) and \
                                    not f.args.vararg:
                                ps = [a.arg for a in f.args.args]
                                if 'staticmethod' not in [
                                        ast.unparse(d)
                                        for d in f.decorator_list]:
                                    ps = ps[1:]
                                seen.setdefault(f.name, []).append(
                                    tuple(ps))
                for f in t.body:
                    if isinstance(f, ast.FunctionDef):
                        seen.setdefault(f.name, []).append(tuple(
                            a.arg for a in f.args.args))
    for k, v in seen.items():
        if len(set(v)) == 1 and len(v) == 1 and k not in (
                'get', 'append', 'update'):
            SIGS[k] = v[0]


class Inline(Base):
    """inline temporaries assigned once and used once in the next stmt"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            b = getattr(owner, field)
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name) and isinstance(
                            t, (ast.Assign, ast.Return, ast.Expr)):
                    x = s.targets[0].id
                    uses = [n for n in ast.walk(f) if isinstance(
                        n, ast.Name) and n.id == x]
                    here = [n for n in ast.walk(t) if isinstance(
                        n, ast.Name) and n.id == x and isinstance(
                            n.ctx, ast.Load)]
                    lam = any(isinstance(n, (ast.Lambda, ast.ListComp,
                                             ast.DictComp, ast.GeneratorExp))
                              for n in ast.walk(t))
                    calls_before = any(isinstance(n, ast.Call)
                                       for n in ast.walk(s.value))
                    if len(uses) == 2 and len(here) == 1 and not lam and \
                            not calls_before:
                        class V(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return s.value if n is here[0] else n
                        b[i + 1] = V().visit(t)
                        del b[i]
                        self.count += 1
                        continue
                i += 1
        return f


class AnyLoop(Base):
    """for..: if c: raise  ->  if any(c for ..): raise"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
                        s.body[0], ast.If) and not s.body[0].orelse and \
                        len(s.body[0].body) == 1 and isinstance(
                            s.body[0].body[0], ast.Raise) and \
                        not s.orelse:
                    i = s.body[0]
                    out.append(ast.If(test=ast.Call(
                        func=name('any'), args=[ast.GeneratorExp(
                            elt=i.test, generators=[ast.comprehension(
                                target=s.target, iter=s.iter, ifs=[],
                                is_async=0)])], keywords=[]),
                        body=[ast.parse('raise ValueError("x")').body[0]],
                        orelse=[]))
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


class SplitLoop(Base):
    """ for x in xs: A; B (A, B append to different lists) -> two loops"""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.For) and len(s.body) == 2 and \
                        not s.orelse and all(
                            isinstance(x, ast.Expr) and isinstance(
                                x.value, ast.Call) and isinstance(
                                x.value.func, ast.Attribute) and
                            x.value.func.attr == 'append'
                            for x in s.body) and isinstance(
                                s.iter, (ast.Name, ast.Attribute)):
                    a, c = s.body
                    out.append(ast.For(target=s.target, iter=s.iter,
                                       body=[a], orelse=[]))
                    out.append(ast.For(target=copy.deepcopy(s.target),
                                       iter=copy.deepcopy(s.iter),
                                       body=[c], orelse=[]))
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


class DictBuild(Base):
    """x = {'a': 1, ..} -> x = {}; x['a'] = 1 ..."""

    def func(self, f):
        for owner, field, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name) and isinstance(
                            s.value, ast.Dict) and s.value.keys and all(
                                k is not None for k in s.value.keys) and \
                        s.targets[0].id not in names_loaded(s.value):
                    t = s.targets[0].id
                    out.append(ast.Assign(targets=[store(t)], value=ast.Dict(
                        keys=[], values=[])))
                    for k, v in zip(s.value.keys, s.value.values):
                        out.append(ast.Assign(targets=[ast.Subscript(
                            value=name(t), slice=k, ctx=ast.Store())],
                            value=v))
                    self.count += 1
                    continue
                out.append(s)
            setattr(owner, field, out)
        return f


TR = {k: v for k, v in list(globals().items())
      if isinstance(v, type) and issubclass(v, Base) and v is not Base}


def main():
    tr, src, dst = sys.argv[1:4]
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    run(tr, src, dst, seed)


def run(tr, src, dst, seed=0):
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    collect_sigs(src)
    total = 0
    trs = tr.split('+')
    for dp, dn, fn in os.walk(src):
        dn[:] = sorted(x for x in dn if x != '__pycache__')
        for x in sorted(fn):
            if not x.endswith('.py'):
                continue
            p = os.path.join(dp, x)
            t = ast.parse(open(p).read())
            for k, one in enumerate(trs):
                v = TR[one](random.Random('%s%d%d' % (x, seed, k)))
                v.n = 100 * k
                t = v.visit(t)
                ast.fix_missing_locations(t)
                t = ast.parse(ast.unparse(t))
                total += v.count
            q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w') as h:
                h.write(ast.unparse(t) + '\n')
    print(tr, 'rewrites:', total)


if __name__ == '__main__':
    main()
