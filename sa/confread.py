"""Propagation of constant configuration data through the programs.

The shipped YAML files are constants of the repository.  They are propagated
through the functions which read them: known subscripts, membership tests and
class names are resolved, everything else is unknown.  Both branches of an
unknown test are followed.  Nothing of the package is executed.
"""
import ast
import copy
import json
import os
import subprocess

from .repo import Class, Func
from .rules.flow import dotted

YAML = '''
import sys, json, yaml
out = {}
def fix(x):
    if isinstance(x, dict):
        return {str(k): fix(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [fix(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)
for p in sys.argv[1:]:
    try:
        out[p] = fix(yaml.safe_load(open(p)))
    except Exception as e:
        out[p] = {'<error>': str(e)}
print(json.dumps(out))
'''


def read_yaml(paths):
    for exe in ('python3-vt', '/opt/veriftools/pyvenv/bin/python3',
                '/opt/veriftools/pyvenv/bin/python', 'python3'):
        try:
            r = subprocess.run([exe, '-c', YAML] + paths, timeout=120,
                               capture_output=True, text=True)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if r.returncode == 0:
            return json.loads(r.stdout)
    raise RuntimeError('no YAML reader available')


class Unknown(object):
    def __repr__(self):
        return '?'


U = Unknown()
OPEN = '<open>'       # key of a dictionary which may hold further keys


class ClassVal(object):
    def __init__(self, cls):
        self.cls = cls


class Inst(object):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {'_untracked_data': {OPEN: U}, '_data': {OPEN: U}}


class Conf(object):
    def __init__(self, config):
        self.config = config


class FuncVal(object):
    def __init__(self, module, node, cls=None, self_=None, env=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.self_ = self_
        self.env = env


class Meth(object):
    """built-in method of a known value"""
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class ModVal(object):
    def __init__(self, kind, obj):
        self.kind = kind
        self.obj = obj


class Stop(Exception):
    pass


PLAIN = (str, int, float, bool, type(None))


def known(v):
    return v is not U


def deep_known(v):
    if isinstance(v, dict):
        return all(deep_known(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(deep_known(x) for x in v)
    return isinstance(v, PLAIN)


class Flow(object):
    __slots__ = ('ret', 'done', 'brk')

    def __init__(self):
        self.ret = []
        self.done = False


class Interp(object):
    depth_limit = 24
    step_limit = 400000

    def __init__(self, repo, obs, label):
        self.repo = repo
        self.obs = obs            # key -> [ok, certain, text, path, line]
        self.label = label
        self.uncertain = 0
        self.quiet = 0
        self.depth = 0
        self.steps = 0
        self.active = []
        self.touched = set()

    # -------------------------------------------------------- obligations
    def note(self, ok, f, line, text):
        if self.quiet:
            return
        site = f.site
        k = (site, f.module.path, line, text)
        o = self.obs.get(k)
        # a test which no configuration decides may go either way
        certain = True
        if o is None:
            self.obs[k] = [ok, certain, self.label]
        elif not ok and (o[0] or (certain and not o[1])):
            self.obs[k] = [ok, certain, self.label]

    # --------------------------------------------------------------- calls
    def call_func(self, fv, args, kws, dstar_unknown=False, star_unknown=False,
                  caller=None, line=0):
        node = fv.node
        a = node.args
        if isinstance(node, ast.Lambda):
            return U
        pos = [p.arg for p in a.posonlyargs + a.args]
        if fv.self_ is not None:
            args = [fv.self_] + list(args)
        env = {}
        bad = None
        if len(args) > len(pos) and not a.vararg:
            bad = 'takes %d positional arguments but %d are given' % (
                len(pos), len(args))
        for p, v in zip(pos, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = U
        konly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kws.items():
            if k in env:
                bad = 'gets several values for argument %r' % k
            elif k in pos or k in konly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                bad = 'has no argument %r' % k
        if a.kwarg:
            env[a.kwarg.arg] = U if dstar_unknown else extra
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dfl.update({p: d for p, d in zip(konly, a.kw_defaults)
                    if d is not None})
        miss = []
        for p in pos + konly:
            if p in env:
                continue
            if dstar_unknown or star_unknown:
                env[p] = U
            elif p in dfl:
                env[p] = self.const(dfl[p])
            else:
                miss.append(p)
                env[p] = U
        if miss:
            bad = 'misses argument %s' % ', '.join(map(repr, miss))
        if caller is not None:
            self.note(bad is None, caller, line, 'arguments of %s' % (
                node.name if bad is None else '%s: %s' % (node.name, bad)))
        if bad:
            return U
        key = (id(node), id(fv.self_))
        if self.depth >= self.depth_limit or self.active.count(key) > 1:
            return U
        self.depth += 1
        self.active.append(key)
        try:
            fr = Frame(self, fv, env)
            return fr.run()
        finally:
            self.active.pop()
            self.depth -= 1

    def const(self, n):
        try:
            return ast.literal_eval(n)
        except (ValueError, TypeError, SyntaxError):
            return U

    def load_class(self, s, fr, line):
        if s is None:
            self.note(False, fr, line, 'the class to be loaded is None')
        if not isinstance(s, str):
            return U
        mod, _, name = s.rpartition('.')
        if not mod.startswith('egenerator'):
            return U
        c = self.repo.get_class(s)
        if c is None and mod in self.repo.modules and name in \
                self.repo.modules[mod].consts:
            return U
        self.note(c is not None, fr, line, 'class %s %s' % (
            s, 'exists' if c is not None else 'does not exist'))
        return ClassVal(c) if c is not None else U

    def is_component(self, c):
        return any(k.name == 'BaseComponent' for k in self.repo.mro(c))

    def configure(self, inst, args, kws, du, su, fr, line):
        m = self.repo.find_method(inst.cls, '_configure')
        if m is None:
            return U
        r = self.call_func(FuncVal(m.module, m.node, m.cls, inst), args, kws,
                           du, su, fr, line)
        conf = r[0] if isinstance(r, tuple) and r else U
        inst.attrs['configuration'] = conf
        inst.attrs['_configuration'] = conf
        if isinstance(r, tuple) and len(r) == 3:
            inst.attrs['sub_components'] = r[2]
            inst.attrs['_sub_components'] = r[2]
        self.entries(inst)
        return None

    ENTRY = ('get_loss', 'get_tensors', 'get_data_from_hdf',
             'get_data_from_frame', 'create_data_from_frame',
             'get_event_filter_mask_from_hdf',
             'get_event_filter_mask_from_frame')

    def entries(self, inst):
        for n in self.ENTRY:
            m = self.repo.find_method(inst.cls, n)
            if m is None:
                continue
            a = m.node.args
            nreq = len(a.args) - len(a.defaults) - 1
            self.call_func(FuncVal(m.module, m.node, m.cls, inst),
                           [U] * max(nreq, 0), {}, False, True)


class Frame(object):
    def __init__(self, it, fv, env):
        self.it = it
        self.fv = fv
        self.module = fv.module
        self.env = env
        self.site = '%s:%s%s' % (fv.module.name,
                                 fv.cls.name + '.' if fv.cls else '',
                                 fv.node.name)
        self.flow = Flow()

    def run(self):
        n = self.fv.node
        self.it.touched.add(self.site)
        self.locals = None
        base = self.it.uncertain
        try:
            self.block(n.body)
        except Stop:
            pass
        finally:
            self.it.uncertain = base
        rs = self.flow.ret
        if not rs:
            return None
        out = rs[0]
        for r in rs[1:]:
            out = join(out, r)
        return out

    # ---------------------------------------------------------- statements
    def block(self, body):
        """False if control does not continue after the block"""
        for s in body:
            self.it.steps += 1
            if self.it.steps > self.it.step_limit:
                raise Stop()
            if not self.stmt(s):
                return False
        return True

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(n)
            return True
        r = m(s)
        return True if r is None else r

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        self.flow.ret.append(self.ev(s.value) if s.value is not None
                             else None)
        return False

    def s_Raise(self, s):
        return False

    def s_Break(self, s):
        return False

    s_Continue = s_Break

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.store(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.store(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        self.ev(s.value)
        old = self.ev(load(s.target))
        v = self.ev(s.value)
        r = U
        if isinstance(s.op, ast.Add) and type(old) is type(v) and \
                isinstance(old, (str, list, int, float)):
            r = old + v
        self.store(s.target, r)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)
                if isinstance(o, dict) and isinstance(k, str):
                    o.pop(k, None)

    def s_FunctionDef(self, s):
        self.env[s.name] = FuncVal(self.module, s, None, None, self.env)

    def s_ClassDef(self, s):
        self.env[s.name] = U

    def s_Import(self, s):
        for a in s.names:
            self.env[a.asname or a.name.split('.')[0]] = U

    s_ImportFrom = s_Import

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.store(i.optional_vars, U)
        return self.block(s.body)

    def s_If(self, s):
        t = self.truth(self.ev(s.test))
        if t is not None:
            return self.block(s.body if t else s.orelse)
        return self.split(s.body, s.orelse)

    def split(self, a, b):
        it = self.it
        e0 = dict(self.env)
        it.uncertain += 1
        try:
            ca = self.block(a)
            ea = self.env
            self.env = e0
            cb = self.block(b)
            eb = self.env
        finally:
            it.uncertain -= 1
        if ca and cb:
            out = {}
            for k in set(ea) | set(eb):
                out[k] = join(ea[k], eb[k]) if k in ea and k in eb else \
                    ea.get(k, eb.get(k))
            self.env = out
            return True
        if ca:
            self.env = ea
        return ca or cb

    def s_For(self, s):
        it = self.ev(s.iter)
        xs = None
        if isinstance(it, dict):
            xs = list(it) if OPEN not in it else None
        elif isinstance(it, (list, tuple)):
            xs = list(it)
        if xs is not None and len(xs) <= 60 and not any(
                isinstance(n, ast.Break) for n in ast.walk(s)):
            for x in xs:
                self.store(s.target, x)
                self.block(s.body)
        else:
            self.store(s.target, U)
            self.split(list(s.body), [])
            self.forget(s)
        if s.orelse:
            self.block(s.orelse)
        return True

    def s_While(self, s):
        self.ev(s.test)
        self.forget(s)
        self.split(list(s.body), [])
        return True

    def forget(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.env[n.id] = U

    def s_Try(self, s):
        if s.handlers:
            self.it.quiet += 1
            try:
                self.split(s.body, [])
            finally:
                self.it.quiet -= 1
            for h in s.handlers:
                if h.name:
                    self.env[h.name] = U
                self.split(h.body, [])
        else:
            if not self.block(s.body):
                self.block(s.finalbody)
                return False
        self.block(s.orelse)
        return self.block(s.finalbody)

    def store(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)) and len(v) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v):
                    self.store(x, y)
            else:
                for x in t.elts:
                    self.store(x.value if isinstance(x, ast.Starred)
                               else x, U)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev(t.slice)
            if isinstance(o, dict) and isinstance(k, (str, int)):
                o[k] = v if not self.it.uncertain or k not in o else \
                    join(o[k], v)
            elif isinstance(o, dict):
                o[OPEN] = U
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if isinstance(o, Inst):
                if isinstance(v, dict) and t.attr in ('_untracked_data',
                                                      '_data'):
                    v[OPEN] = U
                o.attrs[t.attr] = v if not self.it.uncertain else U

    # --------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, dict) and OPEN in v:
            return True if len(v) > 1 else None
        if isinstance(v, PLAIN + (dict, list, tuple)):
            return bool(v)
        if isinstance(v, (Inst, ClassVal, FuncVal, Meth)):
            return True
        return None

    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return U
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        e = self.fv.env
        if e is not None and n.id in e:
            return e[n.id]
        r = self.it.repo.resolve_name(self.module, n.id)
        if r is not None:
            return self.wrap(r)
        return U

    def wrap(self, r):
        kind, o = r
        if kind == 'class':
            return ClassVal(o)
        if kind == 'func':
            return FuncVal(o.module, o.node, None, None)
        if kind == 'module':
            return ModVal('module', o)
        if kind == 'const':
            m, k = o
            v = self.it.const(m.consts[k])
            return v if m.const_count.get(k) == 1 else U
        if kind == 'ext':
            return ModVal('ext', o)
        return U

    def e_Tuple(self, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                self.ev(x.value)
                return U
            out.append(self.ev(x))
        return tuple(out)

    def e_List(self, n):
        v = self.e_Tuple(n)
        return list(v) if isinstance(v, tuple) else v

    def e_Dict(self, n):
        out = {}
        ok = True
        for k, v in zip(n.keys, n.values):
            y = self.ev(v)
            if k is None:
                if isinstance(y, dict):
                    out.update(y)
                else:
                    ok = False
                continue
            x = self.ev(k)
            if isinstance(x, (str, int)):
                out[x] = y
            else:
                ok = False
        if not ok:
            out[OPEN] = U
        return out

    def e_IfExp(self, n):
        t = self.truth(self.ev(n.test))
        if t is None:
            self.it.uncertain += 1
            a, b = self.ev(n.body), self.ev(n.orelse)
            self.it.uncertain -= 1
            return join(a, b)
        return self.ev(n.body if t else n.orelse)

    def e_BoolOp(self, n):
        r = None
        isand = isinstance(n.op, ast.And)
        pending = 0
        try:
            for x in n.values:
                v = self.ev(x)
                t = self.truth(v)
                if t is None:
                    pending += 1
                    self.it.uncertain += 1
                    continue
                if t != isand:
                    return v if not pending else (
                        v if isinstance(v, bool) else U)
                r = v
            return U if pending else r
        finally:
            self.it.uncertain -= pending

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return U if t is None else not t
        if isinstance(n.op, ast.USub) and isinstance(v, (int, float)):
            return -v
        return U

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, ast.Add) and type(a) is type(b) and isinstance(
                a, (str, list, tuple, int, float)):
            return a + b
        if isinstance(n.op, ast.Mod) and isinstance(a, str) and deep_known(b):
            try:
                return a % b
            except (TypeError, ValueError):
                return U
        return U

    def e_JoinedStr(self, n):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value)
                if not isinstance(x, str) or v.format_spec or \
                        v.conversion != -1:
                    return U
                out += x
        return out

    def e_Compare(self, n):
        left = self.ev(n.left)
        rs = [self.ev(c) for c in n.comparators]
        if len(rs) != 1:
            return U
        op, right = n.ops[0], rs[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(right, dict) and isinstance(left, (str, int)):
                if left not in right and OPEN in right:
                    return U
                return (left in right) == isinstance(op, ast.In)
            if isinstance(right, (list, tuple, str)) and isinstance(
                    left, PLAIN) and (isinstance(right, str) or
                                      deep_known(right)):
                try:
                    return (left in right) == isinstance(op, ast.In)
                except TypeError:
                    return U
            return U
        if isinstance(op, (ast.Is, ast.IsNot)):
            if right is None and left is not U:
                return (left is None) == isinstance(op, ast.Is)
            if isinstance(right, bool) and isinstance(left, PLAIN):
                return (left is right) == isinstance(op, ast.Is)
            return U
        if deep_known(left) and deep_known(right):
            if isinstance(op, ast.Eq):
                return left == right
            if isinstance(op, ast.NotEq):
                return left != right
            try:
                if isinstance(op, ast.Lt):
                    return left < right
                if isinstance(op, ast.LtE):
                    return left <= right
                if isinstance(op, ast.Gt):
                    return left > right
                if isinstance(op, ast.GtE):
                    return left >= right
            except TypeError:
                return U
        return U

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev(n.slice) if not isinstance(n.slice, ast.Slice) else U
        if isinstance(o, dict) and isinstance(k, str):
            ok = k in o
            if not ok and OPEN in o:
                return U
            self.it.note(ok, self, n.lineno, 'setting %r %s' % (
                k, 'present' if ok else 'is read from %s but not defined' % (
                    ast.unparse(n.value))))
            return o[k] if ok else U
        if isinstance(o, (list, tuple, str)) and isinstance(k, int) and \
                not isinstance(k, bool):
            if -len(o) <= k < len(o):
                return o[k]
        return U

    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.attr(o, n.attr)

    def attr(self, o, a):
        it = self.it
        if isinstance(o, Inst):
            if a in ('untracked_data',):
                return o.attrs.get('_untracked_data', U)
            m = it.repo.find_method(o.cls, a)
            if m is not None and not m.is_property and \
                    a not in o.attrs:
                return FuncVal(m.module, m.node, m.cls,
                               None if m.is_static else o)
            if a in o.attrs:
                return o.attrs[a]
            c = it.repo.find_assign(o.cls, a)
            if c is not None:
                return it.const(c[1])
            return U
        if isinstance(o, Conf):
            if a == 'config':
                return o.config
            return U
        if isinstance(o, ClassVal):
            m = it.repo.find_method(o.cls, a)
            if m is not None:
                return FuncVal(m.module, m.node, m.cls, None)
            return U
        if isinstance(o, ModVal):
            if o.kind == 'module':
                r = it.repo.resolve(o.obj.name + '.' + a)
                return self.wrap(r) if r[0] != 'missing' else U
            return ModVal('ext', o.obj + '.' + a)
        if isinstance(o, (dict, list, str, tuple)):
            return Meth(o, a)
        return U

    def e_Lambda(self, n):
        return U

    def comp(self, n):
        save = dict(self.env)
        out = []
        ok = [True]

        def go(i):
            if i == len(n.generators):
                if isinstance(n, ast.DictComp):
                    out.append((self.ev(n.key), self.ev(n.value)))
                else:
                    out.append(self.ev(n.elt))
                return
            g = n.generators[i]
            it = self.ev(g.iter)
            xs = list(it) if isinstance(it, (list, tuple, dict)) and not (
                isinstance(it, dict) and OPEN in it) else None
            if xs is None:
                ok[0] = False
                self.store(g.target, U)
                self.it.uncertain += 1
                for c in g.ifs:
                    self.ev(c)
                go(i + 1)
                self.it.uncertain -= 1
                return
            for x in xs[:60]:
                self.store(g.target, x)
                t = True
                for c in g.ifs:
                    b = self.truth(self.ev(c))
                    if b is None:
                        ok[0] = False
                    elif not b:
                        t = False
                        break
                if t:
                    go(i + 1)
        go(0)
        self.env = save
        return out if ok[0] else None

    def e_ListComp(self, n):
        r = self.comp(n)
        return U if r is None else r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        self.comp(n)
        return U

    def e_DictComp(self, n):
        r = self.comp(n)
        if r is None or not all(isinstance(k, (str, int)) for k, _ in r):
            return {OPEN: U}
        return dict(r)

    def e_Call(self, n):
        it = self.it
        if isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Call) and isinstance(
                n.func.value.func, ast.Name) and \
                n.func.value.func.id == 'super':
            return self.super_call(n)
        f = self.ev(n.func)
        args, kws, su, du = [], {}, False, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, (list, tuple)):
                    args += list(v)
                else:
                    su = True
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, dict):
                    kws.update({x: y for x, y in v.items()
                                if isinstance(x, str) and x != OPEN})
                    du = du or OPEN in v
                else:
                    du = True
            else:
                kws[k.arg] = v
        return self.apply(f, args, kws, du, su, n)

    def super_call(self, n):
        it = self.it
        args = [self.ev(a) for a in n.args
                if not isinstance(a, ast.Starred)]
        su = any(isinstance(a, ast.Starred) for a in n.args)
        kws = {k.arg: self.ev(k.value) for k in n.keywords if k.arg}
        du = any(k.arg is None for k in n.keywords)
        s = next(iter(self.env.values()), None)
        if self.fv.cls is None or not isinstance(self.fv.self_, Inst):
            return U
        o = self.fv.self_
        mro = it.repo.mro(o.cls)
        here = [i for i, c in enumerate(mro) if c is self.fv.cls]
        for c in mro[(here[0] + 1) if here else 1:]:
            if n.func.attr in c.methods:
                m = c.methods[n.func.attr]
                return it.call_func(FuncVal(m.module, m.node, m.cls, o),
                                    args, kws, du, su, self, n.lineno)
        return U

    def apply(self, f, args, kws, du, su, n):
        it = self.it
        if isinstance(f, ClassVal):
            return self.construct(f.cls, args, kws, du, su, n)
        if isinstance(f, FuncVal):
            name = f.node.name if not isinstance(f.node, ast.Lambda) else ''
            if name == 'load_class' and f.module.name == 'egenerator.misc':
                return it.load_class(args[0] if args else U, self, n.lineno)
            if f.self_ is not None and it.is_component(f.self_.cls):
                if name == 'configure':
                    return it.configure(f.self_, args, kws, du, su, self,
                                        n.lineno)
                if name in ('load', 'save', 'is_compatible'):
                    return U
            return it.call_func(f, args, kws, du, su, self, n.lineno)
        if isinstance(f, Meth):
            return self.builtin_method(f, args, kws, n)
        if isinstance(f, ModVal) and f.kind == 'ext':
            q = f.obj
            if q in ('copy.deepcopy', 'copy.copy') and args:
                return clone(args[0])
            return U
        if isinstance(n.func, ast.Name) and n.func.id not in self.env:
            return self.builtin(n.func.id, args, kws, n)
        return U

    def construct(self, c, args, kws, du, su, n):
        it = self.it
        if c.name == 'Configuration':
            s = kws.get('settings', args[1] if len(args) > 1 else U)
            m = kws.get('mutable_settings', args[2] if len(args) > 2 else {})
            if isinstance(s, dict) and isinstance(m, dict):
                return Conf(dict(clone(s), **clone(m)))
            return Conf(U)
        if c.name == 'SetupManager':
            o = Inst(c)
            return o
        o = Inst(c)
        m = it.repo.find_method(c, '__init__')
        if m is not None:
            it.call_func(FuncVal(m.module, m.node, m.cls, o), args, kws, du,
                         su, self, n.lineno)
        return o

    def builtin(self, name, args, kws, n):
        a = args[0] if args else U
        if name == 'dict':
            if not args:
                return dict(kws)
            if isinstance(a, dict):
                return dict(a, **kws)
            return U
        if name in ('list', 'tuple') and isinstance(a, (list, tuple, dict)):
            return list(a) if name == 'list' else tuple(a)
        if name == 'len' and isinstance(a, (list, tuple, dict, str)):
            return len(a)
        if name == 'str' and isinstance(a, (str, int)):
            return str(a)
        if name == 'bool':
            t = self.truth(a)
            return U if t is None else t
        if name == 'getattr' and len(args) >= 2 and isinstance(
                args[1], str):
            if isinstance(a, Inst):
                it = self.it
                m = it.repo.find_method(a.cls, args[1])
                have = m is not None or args[1] in a.attrs
                if len(args) == 2 and it.is_component(a.cls):
                    it.note(have, self, n.lineno, 'operation %s.%s %s' % (
                        a.cls.name, args[1],
                        'exists' if have else 'does not exist'))
                return self.attr(a, args[1]) if have else U
            return U
        if name == 'isinstance' and len(args) == 2:
            t = n.args[1]
            names = [dotted(x) for x in (
                t.elts if isinstance(t, ast.Tuple) else [t])]
            m = {'dict': dict, 'list': list, 'str': str, 'tuple': tuple,
                 'int': int, 'float': float, 'bool': bool}
            if a is not U and all(x in m for x in names):
                return isinstance(a, tuple(m[x] for x in names))
            return U
        if name == 'range' and all(isinstance(x, int) for x in args) and \
                args and not kws:
            r = range(*args)
            return list(r) if len(r) <= 60 else U
        if name == 'enumerate' and isinstance(a, (list, tuple, dict)):
            return [(i, x) for i, x in enumerate(a)]
        if name == 'zip' and all(isinstance(x, (list, tuple))
                                 for x in args):
            return list(zip(*args))
        if name == 'sorted' and isinstance(a, dict) and not kws:
            return sorted(a)
        return U

    def builtin_method(self, f, args, kws, n):
        o, name = f.obj, f.name
        if isinstance(o, dict):
            if OPEN in o and name in ('items', 'keys', 'values'):
                return U
            if OPEN in o and name in ('get', 'pop', 'setdefault') and not (
                    args and isinstance(args[0], str) and args[0] in o):
                return U
            if name == 'get' and args and isinstance(args[0], str):
                return o.get(args[0], args[1] if len(args) > 1 else None)
            if name == 'items':
                return [(k, v) for k, v in o.items()]
            if name == 'keys':
                return list(o)
            if name == 'values':
                return list(o.values())
            if name == 'copy':
                return dict(o)
            if name == 'update':
                if args and isinstance(args[0], dict):
                    o.update(args[0])
                elif args:
                    o[OPEN] = U
                o.update(kws)
                return None
            if name == 'pop' and args and isinstance(args[0], str):
                if len(args) == 1:
                    self.it.note(args[0] in o, self, n.lineno,
                                 'setting %r %s' % (
                                     args[0], 'present' if args[0] in o else
                                     'is read but not defined'))
                return o.pop(args[0], args[1] if len(args) > 1 else U)
            if name == 'setdefault' and args and isinstance(args[0], str):
                return o.setdefault(args[0], args[1] if len(args) > 1
                                    else None)
        if isinstance(o, str):
            if name == 'format' and all(deep_known(x) for x in args) and \
                    all(deep_known(x) for x in kws.values()):
                try:
                    return o.format(*args, **kws)
                except (KeyError, IndexError, ValueError, TypeError):
                    return U
            if name in ('split', 'replace', 'startswith', 'endswith',
                        'strip', 'lower', 'upper') and all(
                    isinstance(x, str) for x in args) and not kws:
                return getattr(o, name)(*args)
            if name == 'join' and args and isinstance(
                    args[0], (list, tuple)) and all(
                    isinstance(x, str) for x in args[0]):
                return o.join(args[0])
        if isinstance(o, list):
            if name == 'append' and args:
                if self.it.uncertain:
                    return None
                o.append(args[0])
                return None
            if name == 'extend' and args and isinstance(
                    args[0], (list, tuple)):
                o.extend(args[0])
                return None
        return U


def load(t):
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t


def join(a, b):
    if a is b:
        return a
    if type(a) is type(b) and deep_known(a) and deep_known(b) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    return U


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v
