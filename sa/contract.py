"""Comparison of the current tree with the reviewed contract, per function."""
import ast
import fnmatch
import os
import signal
import sys

from . import terms as T
from .repo import Repo, Func
from .effects import Effects
from .symex import Evaluator, Unsupported, TooComplex, is_big
from .regions import region_compare
from .compare import compare, aligned_compare, Budget, Diff, Cmp, explain, show

sys.setrecursionlimit(30000)


def strip_doc(node):
    node = ast.parse(ast.unparse(node))
    for n in ast.walk(node):
        body = getattr(n, 'body', None)
        if isinstance(body, list) and body and isinstance(
                body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            n.body = body[1:] or [ast.Pass()]
    return node


_dump_memo = {}


def dump(node):
    r = _dump_memo.get(node)
    if r is None:
        r = ast.dump(strip_doc(node))
        _dump_memo[node] = r
    return r


class Deadline(BaseException):
    pass


def _expired(signum, frame):
    raise Deadline()


class Result(object):
    def __init__(self, qual, status, diffs=(), note='', cur=None, stats=None):
        self.qual = qual
        self.status = status      # same | identical | diff | unknown | missing
        self.diffs = list(diffs)
        self.note = note
        self.cur = cur
        self.stats = stats or {}
        self.regions = status == 'unknown' and not note.startswith(
            'not in the')


class Contract(object):
    def __init__(self, ref_root, cur_root):
        self.ref = Repo(ref_root, label='ref')
        self.cur = Repo(cur_root, label='cur')
        self.eref = Effects(self.ref)
        self.ecur = Effects(self.cur)
        # effects of functions which exist only in the current tree
        for d in ('impure', 'reads', 'writes', 'mutates'):
            a, b = getattr(self.eref, d), getattr(self.ecur, d)
            for k, v in b.items():
                a.setdefault(k, v)
        self.eref.generators |= {
            g for g in self.ecur.generators
            if g not in {f.name for f in self.ref.all_functions()}}
        self.same_inventory = self._inventory(self.ref) == \
            self._inventory(self.cur)
        self.results = {}
        self.caller_memo = {}
        self.forced_memo = {}
        self.helpers = None

    def _inventory(self, repo):
        inv = []
        for m in repo.modules.values():
            inv.append(('m', m.name, tuple(sorted(m.imports.items())),
                        tuple(sorted((k, ast.dump(v)) for k, v in
                                     m.consts.items()))))
            for f in m.functions.values():
                inv.append(('f', f.qual, ast.dump(f.node.args),
                            tuple(f.decorators)))
            for c in m.classes.values():
                inv.append(('c', c.qual, tuple(ast.unparse(b) for b in
                                               c.node.bases),
                            tuple(sorted((k, ast.dump(v)) for k, v in
                                         c.assigns.items())),
                            tuple(sorted((k, ast.dump(f.node.args)) for
                                         k, f in c.methods.items()))))
        return sorted(inv, key=repr)

    # ------------------------------------------------------------- subjects
    def subjects(self, patterns):
        """quals 'module:Class.meth' / 'module:func' matched by patterns"""
        out = []
        for m in self.ref.modules.values():
            names = []
            for f in m.functions.values():
                names.append(f.qual)
            for c in m.classes.values():
                meths = set(c.methods)
                cc = self.cur.get_class(c.qual)
                if cc is not None:
                    for n in cc.methods:
                        if self.ref.find_method(c, n) is not None:
                            meths.add(n)
                for n in sorted(meths):
                    names.append('%s:%s.%s' % (m.name, c.name, n))
                for n in sorted(c.setters):
                    names.append('%s:%s.%s=' % (m.name, c.name, n))
                names.append('%s:%s.<class>' % (m.name, c.name))
            if m.consts:
                names.append('%s:<module>' % m.name)
            for q in names:
                if any(match(q, p) for p in patterns):
                    out.append(q)
        return out

    def lookup(self, repo, qual):
        if qual.endswith('='):
            mod, _, rest = qual[:-1].partition(':')
            cn, _, mn = rest.rpartition('.')
            c = repo.get_class(mod + '.' + cn)
            if c is None:
                return None
            for k in repo.mro(c):
                if mn in k.setters:
                    return k.setters[mn]
            return None
        return repo.find_func(qual)

    def cls_of(self, repo, qual):
        mod, _, rest = qual.partition(':')
        cn = rest.rpartition('.')[0]
        return repo.get_class(mod + '.' + cn) if cn else None

    # --------------------------------------------- module and class bodies
    def check_module(self, qual):
        name = qual.partition(':')[0]
        rm, cm = self.ref.modules[name], self.cur.modules.get(name)
        if cm is None:
            return Result(qual, 'missing', [Diff(
                'missing', 0, 'module %s no longer exists' % name)])
        keep = sorted(k for k in rm.consts if not is_private(k) and
                      k != '__all__')
        rb, cb = module_body(rm), module_body(cm)
        if [ast.dump(x) for x in rb] == [ast.dump(x) for x in cb]:
            return Result(qual, 'identical', cur=cm)
        gone = [k for k in keep if k not in cm.consts and
                self.cur.resolve_name(cm, k) is None]
        if gone:
            return Result(qual, 'missing', [Diff(
                'missing', 0, '%s.%s no longer exists' % (name, k))
                for k in gone], cur=cm)
        diffs = []
        unknown = ''
        for k in keep:
            ra, ca = rm.consts[k], cm.consts.get(k)
            if ca is None:
                continue
            if rm.const_count[k] == 1 and cm.const_count[k] == 1 and \
                    ast.dump(ra) == ast.dump(ca) and not loads(ca):
                continue
            if is_big(ra) or is_big(ca):
                same = same_literal(ra, ca)
                if same is None:
                    unknown = 'constant %s: table is not literal' % k
                elif not same:
                    diffs.append(Diff('result', ca.lineno, 'value of %s.%s '
                                      'differs' % (name, k)))
                continue
            try:
                a = self.body_summary('ref', rm, rb, k)
                b = self.body_summary('cur', cm, cb, k)
                ds = compare(a, b)
            except (Unsupported, TooComplex, Budget, RecursionError) as e:
                unknown = 'constant %s: %s' % (k, e)
                continue
            for d in ds:
                if d.kind == 'result':
                    d.text = 'value of %s.%s differs' % (name, k)
                    d.line = getattr(ca, 'lineno', 0)
                    diffs.append(d)
        if diffs:
            return Result(qual, 'diff', diffs, cur=cm)
        if unknown:
            return Result(qual, 'unknown', note=unknown, cur=cm)
        return Result(qual, 'same', cur=cm)

    def body_summary(self, side, mod, body, name):
        fd = ast.parse('def module_body():\n    return %s' % name).body[0]
        fd.body = needed(body, name) + fd.body
        f = Func(mod, None, fd)
        return self.summary(side, f, None, ())

    def check_class(self, qual):
        """class attributes, and inherited operations still reachable"""
        mod, _, rest = qual[:-len('.<class>')].partition(':')
        rc = self.ref.get_class(mod + '.' + rest)
        cc = self.cur.get_class(mod + '.' + rest)
        if cc is None:
            if is_private(rest):
                return Result(qual, 'same')
            return Result(qual, 'missing', [Diff(
                'missing', 0, 'class %s.%s no longer exists' % (mod, rest))])
        diffs = []
        for k in sorted({n for c in self.ref.mro(rc) for n in c.methods}):
            if is_private(k):
                continue
            if self.cur.find_method(cc, k) is None and \
                    not self.cur.has_external_base(cc):
                diffs.append(Diff('missing', cc.node.lineno,
                                  'operation %s.%s no longer exists' % (
                                      rest, k)))
        rb = {b for c in self.ref.mro(rc) for b in self.ref.bases(c)
              if isinstance(b, str) and b != 'object'}
        cb = {b for c in self.cur.mro(cc) for b in self.cur.bases(c)
              if isinstance(b, str) and b != 'object'}
        for b in sorted(rb - cb):
            diffs.append(Diff('missing', cc.node.lineno,
                              '%s no longer derives from %s' % (rest, b)))
        for k in sorted(rc.assigns):
            a = self.cur.find_assign(cc, k)
            if a is None:
                if not is_private(k):
                    diffs.append(Diff('missing', cc.node.lineno,
                                      'class attribute %s.%s is gone' % (
                                          rest, k)))
                continue
            if ast.dump(a[1]) == ast.dump(rc.assigns[k]):
                continue
            ev = Evaluator(self.ref, self.cur, self.eref)
            ev.root_cls = rc
            prime(ev)
            x = ev.eval_const_expr(rc.assigns[k], rc.module)
            ev = Evaluator(self.cur, self.ref, self.eref)
            ev.root_cls = cc
            prime(ev)
            y = ev.eval_const_expr(a[1], a[0].module)
            if x is None or y is None:
                continue
            if x is not y and not Cmp(20000).eq(x, y):
                diffs.append(Diff('result', a[1].lineno,
                                  'value of class attribute %s.%s differs' % (
                                      rest, k), x, y))
        return Result(qual, 'diff' if diffs else 'same', diffs, cur=cc)

    # ------------------------------------------------------------ summaries
    def summary(self, side, func, cls, force):
        repo, other = (self.ref, self.cur) if side == 'ref' else \
            (self.cur, self.ref)
        ev = Evaluator(repo, other, self.eref, force_inline=force)
        ev.root_cls = cls
        s = ev.summarise(func, cls)
        s.inlined = ev.inlined
        return s

    def check(self, qual, depth=0):
        if qual in self.results:
            return self.results[qual]
        r = self._check(qual)
        self.results[qual] = r
        return r

    limit = 60
    deep = False
    fast = False

    def _check(self, qual, force=()):
        try:
            old = signal.signal(signal.SIGALRM, _expired)
        except ValueError:
            return self._check_now(qual, force)
        signal.setitimer(signal.ITIMER_REAL, self.limit * (
            4 if self.deep else 1))
        try:
            return self._check_now(qual, force)
        except Deadline:
            return Result(qual, 'unknown', note='time limit')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    # ------------------------------------------------- helpers and callers
    def path_of(self, r):
        f = r.cur
        if f is None:
            return 'egenerator'
        m = getattr(f, 'module', f)
        return m.path

    def is_helper(self, qual):
        """a private function or method which overrides nothing"""
        if '<' in qual or qual.endswith('='):
            return False
        name = qual.rpartition('.')[2].rpartition(':')[2]
        if not is_private(name):
            return False
        return len([f for f in self.ref.all_functions()
                    if f.name == name]) == 1 and \
            bool(self.callers(qual))

    def callers(self, qual):
        name = qual.rpartition('.')[2].rpartition(':')[2]
        out = self.caller_memo.get(name)
        if out is None:
            out = []
            for f in self.ref.all_functions():
                if f.name != name and any(
                        isinstance(n, (ast.Attribute, ast.Name)) and
                        getattr(n, 'attr', getattr(n, 'id', None)) == name
                        for n in ast.walk(f.node)):
                    out.append(f.qual)
            self.caller_memo[name] = out
        return out

    def changed_helpers(self):
        if self.helpers is None:
            self.helpers = []
            for q in self.subjects(['*']):
                if not self.is_helper(q):
                    continue
                if self.check(q).status == 'diff' or \
                        self.check(q).note.startswith('private helper'):
                    self.helpers.append(q)
        return self.helpers

    def calls_changed_helper(self, qual):
        hs = self.changed_helpers()
        return any(qual in self.callers(h) for h in hs)

    def forced(self, qual, force):
        k = (qual, force)
        if k not in self.forced_memo:
            self.forced_memo[k] = self._check(qual, force)
        return self.forced_memo[k]

    def _check_now(self, qual, force=()):
        r = self._check_whole(qual, force)
        if r.status == 'unknown' and not force and r.cur is not None and \
                isinstance(r.cur, Func) and r.regions:
            rf = self.lookup(self.ref, qual)
            st, ds, n = region_compare(
                self, rf, r.cur, self.cls_of(self.ref, qual),
                self.cls_of(self.cur, qual))
            if st == 'same':
                return Result(qual, 'same', cur=r.cur, stats=dict(
                    obligations=n, regions=n))
            if st == 'diff':
                return Result(qual, 'diff', ds, cur=r.cur, stats=dict(
                    obligations=n, regions=n))
        return r

    def _check_whole(self, qual, force=()):
        if qual.endswith(':<module>'):
            return self.check_module(qual)
        if qual.endswith('.<class>'):
            return self.check_class(qual)
        rf, cf = self.lookup(self.ref, qual), self.lookup(self.cur, qual)
        if rf is None:
            return Result(qual, 'unknown', note='not in the contract')
        if cf is None:
            if is_private(rf.name):
                return Result(qual, 'same', note='private helper dissolved '
                              'into its callers')
            # a class moved to another module still resolves by import
            return Result(qual, 'missing', [Diff(
                'missing', 0, '%s no longer exists' % qual)])
        if not force and self.fast and self.same_inventory and \
                rf.qual == cf.qual and dump(rf.node) == dump(cf.node):
            return Result(qual, 'identical', cur=cf)
        rc, cc = self.cls_of(self.ref, qual), self.cls_of(self.cur, qual)
        try:
            a = self.summary('ref', rf, rc, force)
            b = self.summary('cur', cf, cc, force)
        except (Unsupported, TooComplex) as e:
            return Result(qual, 'unknown', note='not analysable: %s' % e,
                          cur=cf)
        except RecursionError:
            return Result(qual, 'unknown', note='nesting too deep', cur=cf)
        try:
            ds = compare(a, b, 240000 if self.deep else 60000,
                         60 if self.deep else 15)
        except Budget:
            ds = aligned_compare(a, b)
            if not ds:
                return Result(qual, 'unknown', note='comparison budget',
                              cur=cf)
        except RecursionError:
            return Result(qual, 'unknown', note='nesting too deep', cur=cf)
        stats = dict(b.stats)
        stats['inlined'] = len(b.inlined)
        stats['obligations'] = 3 + len(a.events) + len(a.finals) + \
            len(a.defaults)
        if not ds:
            return Result(qual, 'same', cur=cf, stats=stats)
        return Result(qual, 'diff', ds, cur=cf, stats=stats)


def prime(ev):
    ev.events, ev.raises, ev.order, ev.work = [], [], 0, 0
    ev.line, ev.exc_count, ev.stack, ev.with_depth = 0, {}, [], 0


def same_literal(a, b):
    """compare two literal tables, None when they cannot be read"""
    def value(n):
        if isinstance(n, (ast.List, ast.Tuple)):
            return [value(x) for x in n.elts]
        if isinstance(n, ast.Dict):
            return ('dict', {repr(value(k)): value(v) for k, v in
                             zip(n.keys, n.values)})
        if isinstance(n, ast.Call):
            return ('call', ast.unparse(n.func).split('.')[-1],
                    [value(x) for x in n.args],
                    sorted((k.arg or '', value(k.value))
                           for k in n.keywords))
        try:
            v = ast.literal_eval(n)
        except (ValueError, TypeError, SyntaxError):
            d = ast.unparse(n)
            if isinstance(n, (ast.Attribute, ast.Name)):
                return ('name', d.split('.')[-1])
            raise
        return float(v) if isinstance(v, int) and not isinstance(
            v, bool) else v
    try:
        return value(a) == value(b)
    except (ValueError, TypeError, SyntaxError, AttributeError):
        return None


def loads(n):
    return any(isinstance(x, ast.Name) for x in ast.walk(n))


def module_body(m):
    out = []
    for s in m.tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef,
                          ast.ClassDef)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and \
                isinstance(s.test.left, ast.Name) and \
                s.test.left.id == '__name__':
            continue
        out.append(s)
    return out


def stored_names(s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        if isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(
                n.ctx, ast.Load):
            r = n
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name):
            out.add(n.func.value.id)
    return out


def needed(body, name):
    """the module statements which the value of name depends on"""
    want = {name}
    out = []
    for s in reversed(body):
        if isinstance(s, ast.Assign) and is_big(s.value):
            continue
        if stored_names(s) & want:
            out.append(s)
            for n in ast.walk(s):
                if isinstance(n, ast.Name):
                    want.add(n.id)
    out.reverse()
    return out


def is_private(name):
    return name.startswith('_') and not name.startswith('__')


def match(q, p):
    return fnmatch.fnmatchcase(q, p)
