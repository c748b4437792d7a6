"""Evaluation of function bodies to gated value graphs with guarded effects."""
import ast
import copy
import string
from fractions import Fraction

from . import terms as T
from .terms import (N, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, b_and, b_or,
                    b_not, to_bool, bval, ite, item, attr, seq, num, const)
from .repo import Class, Func, dotted
from .effects import (IMPURE_METHODS, impure_ext, is_logger, RNG_METHODS)


class Unsupported(Exception):
    pass


class TooComplex(Exception):
    pass


class Ev(object):
    __slots__ = ('guard', 'node', 'line', 'order')

    def __init__(self, guard, node, line, order):
        self.guard = guard
        self.node = node
        self.line = line
        self.order = order

    def __repr__(self):
        return 'Ev[%s -> %s @%s]' % (T.show(self.guard), T.show(self.node),
                                     self.line)


class State(object):
    __slots__ = ('envs', 'heap', 'stores', 'sguard', 'pc', 'dead', 'counts')

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.stores = {}
        self.sguard = {}
        self.pc = TRUE
        self.dead = False
        self.counts = {}

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.stores = dict(self.stores)
        s.sguard = dict(self.sguard)
        s.pc = self.pc
        s.dead = self.dead
        s.counts = dict(self.counts)
        return s


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Frame(object):
    def __init__(self, func, module, cls, parent, name=''):
        self.fid = uid()
        self.func = func
        self.module = module
        self.cls = cls
        self.parent = parent       # lexically enclosing frame
        self.returns = []
        self.loops = []
        self.nonlocals = set()
        self.globals = set()
        self.locals = set()
        self.name = name


class Loop(object):
    def __init__(self):
        self.conts = []
        self.breaks = []


class Summary(object):
    def __init__(self):
        self.ret = NONE
        self.raises = FALSE
        self.events = []
        self.finals = []       # (loc, guard, value)
        self.defaults = ()
        self.decorators = ()
        self.nparams = 0
        self.param_names = ()
        self.func = None
        self.stats = {}


TREES = {'yaml.load', 'yaml.safe_load', 'ruamel.yaml.load',
         'ruamel.yaml.safe_load', 'json.load', 'json.loads'}

MUTATORS = {'append', 'extend', 'insert', 'update', 'setdefault', 'pop',
            'remove', 'clear', 'add', 'sort', 'reverse', 'discard',
            'popitem'}

NP_METHODS = {'sum', 'mean', 'std', 'reshape', 'cumsum', 'argsort', 'squeeze',
              'transpose', 'prod', 'var', 'argmax', 'argmin', 'flatten',
              'ravel', 'any', 'all', 'dot', 'round', 'nonzero', 'repeat',
              'max', 'min', 'clip'}

ARITH2 = {'add': T.add, 'multiply': T.mul, 'subtract': T.sub,
          'divide': T.div, 'truediv': T.div, 'true_divide': T.div,
          'power': T.powr, 'pow': T.powr}

SIGS = {
    'tensorflow.reduce_sum': ('input_tensor', 'axis', 'keepdims', 'name'),
    'tensorflow.reduce_mean': ('input_tensor', 'axis', 'keepdims', 'name'),
    'tensorflow.reduce_max': ('input_tensor', 'axis', 'keepdims', 'name'),
    'tensorflow.reduce_min': ('input_tensor', 'axis', 'keepdims', 'name'),
    'tensorflow.reduce_prod': ('input_tensor', 'axis', 'keepdims', 'name'),
    'tensorflow.concat': ('values', 'axis', 'name'),
    'tensorflow.stack': ('values', 'axis', 'name'),
    'tensorflow.unstack': ('value', 'num', 'axis', 'name'),
    'tensorflow.expand_dims': ('input', 'axis', 'name'),
    'tensorflow.squeeze': ('input', 'axis', 'name'),
    'tensorflow.cast': ('x', 'dtype', 'name'),
    'tensorflow.reshape': ('tensor', 'shape', 'name'),
    'tensorflow.gather': ('params', 'indices', 'validate_indices', 'axis'),
    'tensorflow.gather_nd': ('params', 'indices', 'batch_dims', 'name'),
    'tensorflow.clip_by_value': ('t', 'clip_value_min', 'clip_value_max'),
    'tensorflow.tensor_scatter_nd_add': ('tensor', 'indices', 'updates'),
    'tensorflow.tensor_scatter_nd_update': ('tensor', 'indices', 'updates'),
    'tensorflow.scatter_nd': ('indices', 'updates', 'shape'),
    'tensorflow.ones_like': ('input', 'dtype', 'name'),
    'tensorflow.zeros_like': ('input', 'dtype', 'name'),
    'tensorflow.convert_to_tensor': ('value', 'dtype', 'dtype_hint'),
    'tensorflow.tile': ('input', 'multiples', 'name'),
    'tensorflow.zeros': ('shape', 'dtype'),
    'tensorflow.ones': ('shape', 'dtype'),
    'tensorflow.constant': ('value', 'dtype', 'shape'),
    'tensorflow.Variable': ('initial_value', 'trainable'),
    'tensorflow.TensorSpec': ('shape', 'dtype', 'name'),
    'tensorflow.gradients': ('ys', 'xs'),
    'numpy.sum': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'numpy.mean': ('a', 'axis', 'dtype'),
    'numpy.std': ('a', 'axis', 'dtype'),
    'numpy.var': ('a', 'axis', 'dtype'),
    'numpy.max': ('a', 'axis'),
    'numpy.min': ('a', 'axis'),
    'numpy.prod': ('a', 'axis'),
    'numpy.cumsum': ('a', 'axis'),
    'numpy.argsort': ('a', 'axis'),
    'numpy.argmin': ('a', 'axis'),
    'numpy.argmax': ('a', 'axis'),
    'numpy.squeeze': ('a', 'axis'),
    'numpy.reshape': ('a', 'newshape'),
    'numpy.expand_dims': ('a', 'axis'),
    'numpy.concatenate': ('arrays', 'axis'),
    'numpy.stack': ('arrays', 'axis'),
    'numpy.zeros': ('shape', 'dtype'),
    'numpy.ones': ('shape', 'dtype'),
    'numpy.empty': ('shape', 'dtype'),
    'numpy.full': ('shape', 'fill_value', 'dtype'),
    'numpy.array': ('object', 'dtype'),
    'numpy.asarray': ('a', 'dtype'),
    'numpy.clip': ('a', 'a_min', 'a_max'),
    'numpy.tile': ('A', 'reps'),
    'numpy.ones_like': ('a', 'dtype'),
    'numpy.zeros_like': ('a', 'dtype'),
    'numpy.random.RandomState': ('seed',),
    'numpy.random.uniform': ('low', 'high', 'size'),
    'numpy.random.normal': ('loc', 'scale', 'size'),
    'numpy.random.randint': ('low', 'high', 'size', 'dtype'),
    'numpy.random.choice': ('a', 'size', 'replace', 'p'),
    'numpy.random.negative_binomial': ('n', 'p', 'size'),
    'numpy.random.poisson': ('lam', 'size'),
    'numpy.random.exponential': ('scale', 'size'),
    'numpy.allclose': ('a', 'b', 'rtol', 'atol'),
    'numpy.split': ('ary', 'indices_or_sections', 'axis'),
    'numpy.linspace': ('start', 'stop', 'num'),
    'numpy.any': ('a', 'axis'),
    'numpy.all': ('a', 'axis'),
    'numpy.transpose': ('a', 'axes'),
    'open': ('file', 'mode'),
    'pandas.HDFStore': ('path', 'mode'),
    'sorted': ('iterable',),
    'enumerate': ('iterable', 'start'),
}
SIG_DEFAULTS = {
    ('numpy.concatenate', 'axis'): ZERO,
    ('numpy.stack', 'axis'): ZERO,
    ('tensorflow.stack', 'axis'): ZERO,
    ('open', 'mode'): const('r'),
}
for _f in SIGS:
    if 'keepdims' in SIGS[_f]:
        SIG_DEFAULTS[(_f, 'keepdims')] = FALSE
    if 'axis' in SIGS[_f] and ('reduce' in _f or _f in (
            'numpy.sum', 'numpy.mean', 'numpy.std', 'numpy.max',
            'numpy.min', 'numpy.prod', 'numpy.any', 'numpy.all',
            'tensorflow.squeeze', 'numpy.squeeze')):
        SIG_DEFAULTS[(_f, 'axis')] = NONE
    if 'dtype' in SIGS[_f] and _f.startswith('numpy.'):
        SIG_DEFAULTS[(_f, 'dtype')] = NONE

EXT_ALIAS = {
    'numpy.abs': 'numpy.absolute', 'abs': 'abs', 'numpy.amax': 'numpy.max',
    'numpy.amin': 'numpy.min', 'numpy.product': 'numpy.prod',
    'tensorflow.keras.backend.sum': 'tensorflow.reduce_sum',
    'copy.copy': 'copy', 'copy.deepcopy': 'deepcopy',
    'numpy.copy': 'copy', 'collections.OrderedDict': 'dict',
    'builtins.open': 'open', 'io.open': 'open',
    'os.path.join': 'os.path.join',
    'numpy.logical_and': 'logical_and', 'numpy.logical_or': 'logical_or',
    'numpy.logical_not': 'logical_not',
    'tensorflow.logical_and': 'logical_and',
    'tensorflow.logical_or': 'logical_or',
    'tensorflow.logical_not': 'logical_not',
    'tensorflow.where': 'where', 'numpy.where': 'where',
    'tensorflow.abs': 'tensorflow.abs',
    'numpy.bitwise_and': 'logical_and', 'numpy.bitwise_or': 'logical_or',
    'tensorflow.less': 'less', 'tensorflow.greater': 'greater',
    'tensorflow.less_equal': 'less_equal',
    'tensorflow.greater_equal': 'greater_equal',
    'numpy.less': 'less', 'numpy.greater': 'greater',
    'numpy.less_equal': 'less_equal',
    'numpy.greater_equal': 'greater_equal',
    'tensorflow.equal': 'equal', 'numpy.equal': 'equal',
    'tensorflow.not_equal': 'not_equal', 'numpy.not_equal': 'not_equal',
}


def ext_name(q):
    if q.startswith('tensorflow.math.'):
        q = 'tensorflow.' + q[len('tensorflow.math.'):]
    return EXT_ALIAS.get(q, q)


BUILTINS = {
    'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set',
    'frozenset', 'sorted', 'sum', 'any', 'all', 'min', 'max', 'abs',
    'isinstance', 'getattr', 'setattr', 'hasattr', 'print', 'str', 'int',
    'float', 'bool', 'super', 'map', 'filter', 'reversed', 'open', 'next',
    'iter', 'round', 'type', 'repr', 'vars', 'id', 'callable', 'issubclass',
    'divmod', 'pow', 'slice', 'object', 'bytes', 'hash', 'globals', 'locals',
    'dir', 'input', 'eval', 'exec', 'delattr', 'complex', 'ord', 'chr',
    '__name__', '__file__', 'NotImplemented', 'property', 'staticmethod',
    'classmethod', 'memoryview', 'bin', 'format'}


class Evaluator(object):
    MAX_DEPTH = 14
    MAX_WORK = 400000
    UNROLL = 12

    def __init__(self, repo, other=None, effects=None, force_inline=(),
                 no_inline=False):
        self.repo = repo
        self.other = other
        self.effects = effects
        self.force = set(force_inline)
        self.no_inline = no_inline
        self.inlined = set()
        self.unknown_new = set()

    # ------------------------------------------------------------ plumbing
    def emit(self, st, node, line=0):
        self.order += 1
        self.events.append(Ev(st.pc, node, line or self.line, self.order))

    def tick(self):
        self.work += 1
        if self.work > self.MAX_WORK:
            raise TooComplex('work limit')

    def new_ref(self, st, content):
        r = N('ref', uid())
        st.heap[r] = content
        return r

    def deref(self, n, st, depth=0):
        if not n.flags & T.F_REF:
            return n
        if depth > 40:
            return N('cyclic')
        if n.op == 'ref':
            c = st.heap.get(n, UNDEF)
            return self.deref(c, st, depth + 1)
        refs = []
        seen = set()
        todo = [n]
        while todo:
            x = todo.pop()
            if x in seen or not x.flags & T.F_REF:
                continue
            seen.add(x)
            if x.op == 'ref':
                refs.append(x)
            else:
                todo.extend(T._iter_nodes(x.args))
        m = {r: self.deref(r, st, depth + 1) for r in refs}
        return T.subst(n, m)

    def merge(self, c, a, b):
        """state equal to a if c else b"""
        if a.dead:
            return b
        if b.dead:
            return a
        s = State()
        s.pc = b_or(a.pc, b.pc)
        for fid in set(a.envs) | set(b.envs):
            ea = a.envs.get(fid)
            eb = b.envs.get(fid)
            if ea is None or eb is None:
                s.envs[fid] = dict(ea or eb)
                continue
            e = {}
            for k in set(ea) | set(eb):
                va, vb = ea.get(k), eb.get(k)
                if va is None or va is UNDEF:
                    e[k] = vb
                elif vb is None or vb is UNDEF:
                    e[k] = va
                elif va is vb:
                    e[k] = va
                else:
                    e[k] = (c, va, vb)
            s.envs[fid] = e
        for r in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(r), b.heap.get(r)
            if va is None:
                s.heap[r] = vb
            elif vb is None or va is vb:
                s.heap[r] = va
            else:
                s.heap[r] = self.merge_content(c, va, vb)
        for e in s.envs.values():
            for k, v in e.items():
                if isinstance(v, tuple):
                    c_, va, vb = v
                    if va.op == 'ref' and vb.op == 'ref':
                        r = N('ref', uid())
                        s.heap[r] = self.merge_content(
                            c_, a.heap.get(va, UNDEF), b.heap.get(vb, UNDEF))
                        e[k] = r
                    elif va.op == 'ref' and va not in b.heap and \
                            self.promotable(vb):
                        r = N('ref', uid())
                        s.heap[r] = self.merge_content(
                            c_, a.heap.get(va, UNDEF), vb)
                        e[k] = r
                    elif vb.op == 'ref' and vb not in a.heap and \
                            self.promotable(va):
                        r = N('ref', uid())
                        s.heap[r] = self.merge_content(
                            c_, va, b.heap.get(vb, UNDEF))
                        e[k] = r
                    elif va.op == 'clo' or vb.op == 'clo':
                        e[k] = N('ite', c_, va, vb)
                    else:
                        e[k] = ite(c_, va, vb)
        for loc in set(a.stores) | set(b.stores):
            va, vb = a.stores.get(loc, loc), b.stores.get(loc, loc)
            s.stores[loc] = va if va is vb else ite(c, va, vb)
        for loc in set(a.sguard) | set(b.sguard):
            s.sguard[loc] = b_or(a.sguard.get(loc, FALSE),
                                 b.sguard.get(loc, FALSE))
        for k in set(a.counts) | set(b.counts):
            s.counts[k] = max(a.counts.get(k, 0), b.counts.get(k, 0))
        return s

    def merge_content(self, c, va, vb):
        return ite(c, va, vb)

    # ------------------------------------------------------------- summary
    def summarise(self, func, cls=None):
        self.events = []
        self.raises = []
        self.order = 0
        self.work = 0
        self.line = func.line
        self.exc_count = {}
        self.stack = []
        self.with_depth = 0
        st = State()
        cls = cls or func.cls
        fr = Frame(func, func.module, cls, None, func.qual)
        env = st.envs[fr.fid] = {}
        sm = Summary()
        sm.func = func
        a = func.node.args
        names = []
        pos = a.posonlyargs + a.args
        for i, p in enumerate(pos):
            env[p.arg] = N('param', i)
            names.append(p.arg)
        for p in a.kwonlyargs:
            env[p.arg] = N('param', 'kw:' + p.arg)
            names.append(p.arg)
        if a.vararg:
            env[a.vararg.arg] = N('param', '*')
        if a.kwarg:
            env[a.kwarg.arg] = N('param', '**')
        fr.locals = assigned_names(func.node.body)
        modframe = Frame(None, func.module, None, None)
        st.envs[modframe.fid] = {}
        defaults = []
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            j = i - (len(pos) - nd)
            if j >= 0:
                defaults.append((i, self.deref(
                    self.ev(a.defaults[j], st, modframe), st)))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults.append(('kw:' + p.arg, self.deref(
                    self.ev(d, st, modframe), st)))
        sm.defaults = tuple(defaults)
        sm.nparams = len(pos)
        sm.param_names = tuple(names)
        decos = []
        for d in func.node.decorator_list:
            try:
                decos.append(self.deref(self.ev(d, st, modframe), st))
            except Unsupported:
                decos.append(const(ast.unparse(d)))
        sm.decorators = tuple(decos)
        self.events = []
        self.raises = []
        self.stack.append(func.qual)
        end = self.run_body(func.node.body, st, fr)
        ret, st = self.finish_frame(fr, end, TRUE)
        self.stack.pop()

        def close(n):
            n = self.deref(n, st)
            for _ in range(4):
                if not self.has_clo(n):
                    break
                n = self.deref(self.close_value(n, st, fr), st)
            return n
        sm.ret = close(ret)
        r = FALSE
        for g in self.raises:
            r = b_or(r, self.dg(g, st))
        sm.raises = r
        out = []
        for e in self.events:
            g = self.dg(e.guard, st)
            if self.has_clo(g):
                g = to_bool(close(g))
            out.append(Ev(g, close(e.node), e.line, e.order))
        sm.events = out
        for loc, g in st.sguard.items():
            v = st.stores.get(loc, loc)
            sm.finals.append((self.deref(loc, st), self.dg(g, st),
                              close(v)))
        sm.stats = dict(events=len(out), finals=len(sm.finals),
                        nodes=self.work)
        return sm

    def dg(self, g, st):
        if not g.flags & T.F_REF:
            return g
        return to_bool(self.deref(g, st))

    def run_body(self, body, st, fr):
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            body = body[1:]
        return self.block(body, st, fr)

    def finish_frame(self, fr, end, pc0):
        """merge all exits of a frame -> (value, state)"""
        exits = list(fr.returns)
        if end is not None and not end.dead:
            exits.append((end.pc, NONE, end))
        if not exits:
            s = State()
            s.dead = True
            s.pc = FALSE
            if end is not None:
                s = end.copy()
                s.dead = True
            return UNDEF, s
        pc, val, st = exits[-1]
        val = val
        for pc_i, v_i, s_i in reversed(exits[:-1]):
            sel = T.b_care(pc_i, T.b_or(pc_i, pc))
            sel = T.b_care(sel, pc0)
            if v_i.op == 'ref' and val.op == 'ref' and v_i is not val:
                ca, cb = s_i.heap.get(v_i, UNDEF), st.heap.get(val, UNDEF)
                st = self.merge(sel, s_i, st)
                val = self.new_ref(st, self.merge_content(sel, ca, cb))
            else:
                st = self.merge(sel, s_i, st)
                val = self.ite_any(sel, v_i, val)
            pc = b_or(pc, pc_i)
        return val, st

    def ite_any(self, c, a, b):
        return ite(c, a, b)

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in rotated(stmts):
            if st.dead:
                break
            self.tick()
            self.line = getattr(s, 'lineno', self.line)
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.envs[fr.fid][a.asname or a.name.split('.')[0]] = \
                self.qual_node(a.name if a.asname else a.name.split('.')[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        if s.level:
            return st
        for a in s.names:
            st.envs[fr.fid][a.asname or a.name] = self.qual_node(
                (s.module or '') + '.' + a.name)
        return st

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return st
        if isinstance(v, ast.Call):
            n0 = len(self.events)
            r0 = len(self.raises)
            n = self.ev_call(v, st, fr, stmt=True)
            return st
        self.ev(v, st, fr)
        return st

    def s_Assign(self, s, st, fr):
        v = None
        if isinstance(s.value, ast.Subscript) and all(isinstance(
                t, ast.Name) and t.id in self.changed_names(fr)
                for t in s.targets):
            v = self.branch_off(s.value, st, fr)
        if v is None:
            v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def changed_names(self, fr):
        """names whose value is changed in place or handed to a helper"""
        n = fr.func.node if fr.func is not None else None
        r = self._changed.get(n)
        if r is None:
            r = self._changed[n] = set()
            for x in ast.walk(n) if n is not None else ():
                if isinstance(x, ast.Subscript) and not isinstance(
                        x.ctx, ast.Load):
                    y = x.value
                    while isinstance(y, ast.Subscript):
                        y = y.value
                    r.add(getattr(y, 'id', None))
                elif isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and \
                            x.func.attr in MUTATORS:
                        r.add(getattr(x.func.value, 'id', None))
                    for a in x.args + [k.value for k in x.keywords]:
                        r.add(getattr(a, 'id', None))
        return r

    _changed = {}
    list_mus = set()

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        old = self.ev(as_load(t), st, fr)
        rhs = self.ev(s.value, st, fr)
        if isinstance(s.op, ast.Add) and old.op == 'ref':
            c = self.deref(old, st)
            if T._listy(c) or st.heap.get(old) in self.list_mus:
                self.mutate(old, 'extend', [rhs], {}, st, fr)
                return st
        if isinstance(s.op, ast.Add) and isinstance(
                t, (ast.Attribute, ast.Subscript)):
            c = self.deref(rhs, st)
            o = self.deref(old, st)
            if o.op in ('attr', 'item') and (isinstance(
                    s.value, (ast.List, ast.ListComp)) or isinstance(
                        s.value, ast.Call) and isinstance(
                            s.value.func, ast.Name) and
                    s.value.func.id in ('list', 'sorted')):
                # a list gets further elements
                self.extend(o, c, st)
                return st
        v = self.binop(s.op, self.deref(old, st), self.deref(rhs, st))
        if isinstance(t, ast.Name) and T._listy(v) and (
                old.op == 'item' and old.args[1].op == 'slice'):
            # a slice of a list is a list of its own
            v = self.new_ref(st, v)
        # in-place update of an object owned by somebody else
        if isinstance(t, ast.Name) and old.op in ('param', 'attr', 'item') \
                and root_of(old).op == 'param' and not T.is_const(rhs):
            self.emit(st, N('inplace', type(s.op).__name__,
                            self.deref(old, st), self.deref(rhs, st)))
        self.assign(t, v, st, fr, aug=True)
        return st

    def deref_shallow(self, n, st):
        if n.op == 'ref':
            return st.heap.get(n, UNDEF)
        return n

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        fr.returns.append((st.pc, v, st.copy()))
        st.dead = True
        return st

    def s_Raise(self, s, st, fr):
        self.raises.append(st.pc)
        st.dead = True
        return st

    def s_Assert(self, s, st, fr):
        c = to_bool(self.deref(self.ev(s.test, st, fr), st))
        g = b_and(st.pc, b_not(c))
        if g is not FALSE:
            self.raises.append(g)
        st.pc = b_and(st.pc, c)
        if st.pc is FALSE:
            st.dead = True
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                k = self.deref(self.ev(t.slice, st, fr), st)
                if base.op == 'ref':
                    d = self.deref(st.heap[base], st)
                    st.heap[base] = N('lmut', 'pop', d, k) \
                        if T._listy(d) or T.list_call(lmut_base(d)) \
                        else self.ddel(st.heap[base], k)
                else:
                    self.emit(st, N('delitem', self.deref(base, st), k))
            elif isinstance(t, ast.Attribute):
                self.emit(st, N('delattr', self.deref(
                    self.ev(t.value, st, fr), st), t.attr))
        return st

    def ddel(self, d, k):
        if d.op == 'dict' and T.is_const(k):
            return T.mk_dict([(a, b) for a, b in d.args[0] if a is not k])
        if d.op == 'dupd' and d.args[1] is k:
            return self.ddel(d.args[0], k)
        return N('ddel', d, k)

    def s_If(self, s, st, fr):
        c = to_bool(self.deref(self.ev(s.test, st, fr), st))
        return self.branch(c, s.body, s.orelse, st, fr)

    def one_domain(self, v, st):
        d1, e1, _ = self.iter_domain(v.args[1], st)
        d2, e2, _ = self.iter_domain(v.args[2], st)
        b = N('bvar', uid())
        return d1 is d2 and e1(b) is e2(b)

    def branch(self, c, body, orelse, st, fr):
        return self.fork(c, lambda st: self.block(body, st, fr),
                         lambda st: self.block(orelse, st, fr), st)

    def fork(self, c, then, other, st):
        pt = b_and(st.pc, c)
        pf = b_and(st.pc, b_not(c))
        if pt is not FALSE and T.sat_path(pt, {}) is None:
            pt = FALSE
        if pf is not FALSE and T.sat_path(pf, {}) is None:
            pf = FALSE
        if pf is FALSE:
            return then(st)
        if pt is FALSE:
            return other(st)
        s1 = st.copy()
        s1.pc = pt
        s2 = st
        s2.pc = pf
        s1 = then(s1)
        s2 = other(s2)
        if s1.dead and s2.dead:
            return s2
        return self.merge(c, s1, s2)

    def s_Continue(self, s, st, fr):
        fr.loops[-1].conts.append((st.pc, st.copy()))
        st.dead = True
        return st

    def s_Break(self, s, st, fr):
        fr.loops[-1].breaks.append((st.pc, st.copy()))
        st.dead = True
        return st

    def s_FunctionDef(self, s, st, fr):
        f = Func(fr.module, None, s)
        c = self.new_closure(f, st, fr)
        val = c
        for d in reversed(s.decorator_list):
            dn = dotted(d.func if isinstance(d, ast.Call) else d)
            dv = self.deref(self.ev(d, st, fr), st)
            val = N('deco', dv, val)
        st.envs[fr.fid][s.name] = val
        return st

    closures = {}
    closure_frames = set()

    def s_ClassDef(self, s, st, fr):
        st.envs[fr.fid][s.name] = N('localclass', s.name,
                                    const(ast.dump(s)))
        return st

    def s_With(self, s, st, fr):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        pc = st.pc
        close = []
        for v in opened:
            d = self.deref(v, st)
            if reads_file(d):
                # only reads: nothing happens but that the file is closed
                continue
            if d.op == 'call' and d.args[0] is N('ext', 'pandas.HDFStore'):
                close.append(v)
                continue
            self.emit(st, N('enter', d))
        st = self.block(s.body, st, fr)
        for v in close[::-1]:
            # with f: ...  is  try: ... finally: f.close()
            s2 = st.copy()
            s2.pc = pc
            n0 = len(self.events)
            self.call_method(v, 'close', [], {}, [], s2, fr, True, s)
            for i in range(n0, len(self.events)):
                e = self.events[i]
                self.events[i] = Ev(e.guard, N('fin', e.node), e.line,
                                    e.order)
        return st

    s_AsyncWith = s_With

    def s_Try(self, s, st, fr):
        pre_pc = st.pc
        if s.handlers:
            names = []
            for h in s.handlers:
                names.append(ast.unparse(h.type) if h.type is not None
                             else '*')
            cur = None
            pre = st.copy()
            atoms = []
            for nm in names:
                k = (nm,)
                i = self.exc_count.get(k, 0)
                self.exc_count[k] = i + 1
                atoms.append(T.batom(N('exc', nm, i)))
            anyexc = FALSE
            for a in atoms:
                anyexc = b_or(anyexc, a)
            body = st
            body.pc = b_and(pre_pc, b_not(anyexc))
            body = self.block(s.body, body, fr)
            if not body.dead and s.orelse:
                body = self.block(s.orelse, body, fr)
            res = body
            seen = FALSE
            for h, a in reversed(list(zip(s.handlers, atoms))):
                hs = pre.copy()
                hs.pc = b_and(pre_pc, a)
                if h.name:
                    hs.envs[fr.fid][h.name] = N('excval')
                hs = self.block(h.body, hs, fr)
                if res.dead and hs.dead:
                    res = hs
                else:
                    res = self.merge(a, hs, res)
        else:
            res = self.block(s.body, st, fr)
            if not res.dead:
                res = self.block(s.orelse, res, fr)
        if s.finalbody:
            n0 = len(self.events)
            if res.dead:
                fs = res.copy()
                fs.dead = False
                fs.pc = pre_pc
                fs = self.block(s.finalbody, fs, fr)
                pcs = pre_pc
            else:
                keep = res.pc
                res.pc = pre_pc
                res = self.block(s.finalbody, res, fr)
                if not res.dead:
                    res.pc = keep
            for i in range(n0, len(self.events)):
                e = self.events[i]
                self.events[i] = Ev(e.guard, N('fin', e.node), e.line,
                                    e.order)
        return res

    # ---------------------------------------------------------------- loops
    def iter_domain(self, it, st):
        """(domain, elem(idx)->node, guard(idx) or None)"""
        it = self.deref(it, st)
        if it.op == 'call' and it.args[0].op == 'ext':
            f = it.args[0].args[0]
            a = it.args[1]
            kw = dict(it.args[2])
            if f == 'range' and not kw:
                if len(a) == 1:
                    return N('rng', a[0]), (lambda i: i), None
                if len(a) == 2:
                    return (N('rng', T.sub(a[1], a[0])),
                            lambda i: T.add(a[0], i), None)
                if len(a) == 3 and a[2] is ONE:
                    return (N('rng', T.sub(a[1], a[0])),
                            lambda i: T.add(a[0], i), None)
                if len(a) == 3 and a[2] is num(-1):
                    return (N('rng', T.sub(a[0], a[1])),
                            lambda i: T.sub(a[0], i), None)
                if len(a) == 3 and a[2].op == 'num':
                    return (N('rng3', *a),
                            lambda i: T.add(a[0], T.mul(a[2], i)), None)
            if f == 'enumerate' and a:
                d, e, g = self.iter_domain(a[0], st)
                start = kw.get('start', a[1] if len(a) > 1 else ZERO)
                if g is None:
                    return d, (lambda i: seq([T.add(start, i), e(i)])), None
            if f == 'reversed' and len(a) == 1 and not kw:
                d, e, g = self.iter_domain(a[0], st)
                if g is None and d.op == 'rng':
                    top = T.sub(d.args[0], ONE)
                    return d, (lambda i: e(T.sub(top, i))), None
            if f == 'zip' and a and not kw:
                parts = [self.iter_domain(x, st) for x in a]
                if all(p[2] is None for p in parts):
                    ds = sorted(set(p[0] for p in parts),
                                key=lambda n: n.id)
                    d = ds[0] if len(ds) == 1 else N('zipdom', *ds)
                    return d, (lambda i: seq([p[1](i) for p in parts])), None
            if f in ('list', 'tuple', 'iter', 'keys', 'copy') and \
                    len(a) == 1 and not kw:
                return self.iter_domain(a[0], st)
            if f == 'items' and len(a) == 1:
                d = a[0]
                if d.op == 'call' and d.args[0] is N('ext', 'copy'):
                    d = d.args[1][0]
                v = numbered(d)
                if v is not None:
                    return v[0], (lambda i: seq([i, v[1](i)])), None
                return (N('rng', T.length(d)),
                        lambda i: seq([item(d, i), item(d, item(d, i))]),
                        None)
            if f == 'sorted' and len(a) == 1 and not kw and \
                    a[0].op == 'call' and a[0].args[0] is N('ext', 'items') \
                    and len(a[0].args[1]) == 1:
                # entries in the order of the (distinct) keys
                x = a[0].args[1][0]
                d = N('call', N('ext', 'sorted'), (x,), ())
                return (N('rng', T.length(d)),
                        lambda i: seq([item(d, i), item(x, item(d, i))]),
                        None)
            if f == 'values' and len(a) == 1:
                d = a[0]
                v = numbered(d)
                if v is not None:
                    return v[0], v[1], None
                return (N('rng', T.length(d)),
                        lambda i: item(d, item(d, i)), None)
        v = numbered(it)
        if v is not None:
            return v[0], (lambda i: i), None
        if it.op == 'Flat':
            h, dom, body = it.args
            bv = N('bv', h)
            if body.op == 'seq' and len(body.args) == 1:
                return (dom, lambda i: T.subst(body.args[0], {bv: i}), None)
            if body.op == 'ite' and T.EMPTY in body.args:
                g, x, y = body.args
                if x is T.EMPTY:
                    g, x = b_not(g), y
                if x.op == 'seq' and len(x.args) == 1:
                    return (dom, lambda i: T.subst(x.args[0], {bv: i}),
                            lambda i: to_bool(T.subst(g, {bv: i})))
        if it.op == 'ite':
            # the same elements, differently filtered
            c, x, y = it.args
            d1, e1, g1 = self.iter_domain(x, st)
            d2, e2, g2 = self.iter_domain(y, st)
            b = N('bvar', uid())
            if d1 is d2 and e1(b) is e2(b) and (g1 or g2):
                g1 = g1 or (lambda i: TRUE)
                g2 = g2 or (lambda i: TRUE)
                return d1, e1, lambda i: T.b_ite(c, g1(i), g2(i))
        if it.op == 'item' and it.args[1].op == 'slice':
            lo, hi, sp = it.args[1].args
            if lo is NONE:
                lo = ZERO
            if sp is NONE and (
                    lo.op == 'num' and lo.args[0] >= 0 or
                    lo.op in ('bv', 'bvar')) and (
                    hi is NONE or hi.op == 'num' and hi.args[0] < 0):
                x = it.args[0]
                n = T.sub(T.length(x), lo)
                if hi is not NONE:
                    n = T.add(n, hi)
                return (N('rng', n),
                        lambda i: item(x, T.add(lo, i)), None)
        return N('rng', T.length(it)), (lambda i: item(it, i)), None

    def literal_items(self, it, st):
        """list of element nodes if the iterable is a short literal"""
        raw = it
        it = self.deref_shallow(it, st)
        for _ in range(4):
            if it.op == 'call' and it.args[0].op == 'ext' and \
                    it.args[0].args[0] in ('list', 'tuple', 'iter', 'keys') \
                    and len(it.args[1]) == 1 and not it.args[2]:
                it = self.deref_shallow(it.args[1][0], st)
        if it.op == 'seq':
            if len(it.args) <= self.UNROLL:
                return list(it.args)
            return None
        if it.op == 'dict':
            if len(it.args[0]) <= self.UNROLL and all(
                    T.is_const(k) for k, _ in it.args[0]):
                return [k for k, _ in it.args[0]]
            return None
        if it.op == 'call' and it.args[0].op == 'ext':
            f, a, kw = it.args[0].args[0], it.args[1], it.args[2]
            if f == 'range' and not kw:
                a = [self.pinned(x, st) for x in a]
            if f == 'range' and not kw and all(
                    x.op == 'num' for x in a):
                try:
                    r = range(*[int(x.args[0]) for x in a])
                except Exception:
                    return None
                if len(r) <= self.UNROLL:
                    return [num(i) for i in r]
                return None
            if f in ('items', 'values') and len(a) == 1:
                d = self.deref_shallow(a[0], st)
                if d.op == 'dict' and len(d.args[0]) <= self.UNROLL and all(
                        T.is_const(k) for k, _ in d.args[0]):
                    if f == 'items':
                        return [seq([k, v]) for k, v in d.args[0]]
                    return [v for k, v in d.args[0]]
                return None
            if f == 'enumerate' and a:
                sub = self.literal_items(a[0], st)
                if sub is None:
                    return None
                start = dict(kw).get('start', a[1] if len(a) > 1 else ZERO)
                return [seq([T.add(start, num(i)), x])
                        for i, x in enumerate(sub)]
            if f == 'zip' and a and not kw:
                subs = [self.literal_items(x, st) for x in a]
                known = [s for s in subs if s is not None]
                if not known:
                    return None
                n = min(len(s) for s in known)
                out = []
                for i in range(n):
                    out.append(seq([
                        (s[i] if s is not None else
                         item(self.deref(x, st), num(i)))
                        for s, x in zip(subs, a)]))
                return out
            if f == 'reversed' and len(a) == 1:
                sub = self.literal_items(a[0], st)
                return None if sub is None else list(reversed(sub))
            if f in ('range', 'items', 'values', 'enumerate', 'zip',
                     'reversed', 'map', 'filter'):
                return None
        x = self.deref(raw, st)
        if x.op == 'ite' and self.known_dicts(x):
            return None
        n = self.pinned(T.length(x), st)
        if n.op == 'num' and n.args[0] <= 8 and n.args[0] == int(n.args[0]):
            return [item(x, num(i)) for i in range(int(n.args[0]))]
        return None

    def known_dicts(self, x):
        """one of several dictionaries with known keys"""
        if x.op == 'ite':
            return self.known_dicts(x.args[1]) and \
                self.known_dicts(x.args[2])
        return x.op == 'dict' and len(x.args[0]) <= self.UNROLL and all(
            T.is_const(k) for k, _ in x.args[0])

    def pinned(self, n, st):
        """the constant which n is known to be equal to"""
        if n.op in ('num', 'bv', 'bvar') or st.pc.op != 'bite':
            return n
        todo, seen = [st.pc], set()
        while todo:
            c = todo.pop()
            if c.op != 'bite' or c in seen or len(seen) > 64:
                continue
            seen.add(c)
            a = c.args[0]
            if a.op == 'eq' and n in a.args:
                v = a.args[0] if a.args[1] is n else a.args[1]
                if v.op == 'num' and T.b_implies(st.pc, T.batom(a)):
                    return v
            todo += c.args[1:]
        return n

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        lits = self.literal_items(it, st)
        if lits is not None:
            return self.unroll(s, lits, st, fr)
        return self.for_over(s, it, st, fr, 2)

    def for_over(self, s, it, st, fr, depth):
        v = self.deref(it, st)
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in (
                'items', 'values', 'keys', 'enumerate') and v.args[1]:
            x = v.args[1][0]
            if x.op == 'ite' and (any(
                    y is T.EMPTYD or y is T.EMPTY for y in x.args[1:]) or
                    self.known_dicts(x)):
                v = ite(x.args[0], *[N('call', v.args[0], (
                    y,) + v.args[1][1:], v.args[2]) for y in x.args[1:]])
        elif v.op == 'call' and v.args[0] in (
                N('ext', 'zip'), N('ext', 'enumerate')) and depth:
            # some of the lists have known elements in one case
            for x in v.args[1]:
                if x.op == 'ite' and any(y.op == 'seq' for y in x.args[1:]) \
                        and not all(y.op == 'seq' for y in x.args[1:]):
                    c = x.args[0]
                    v = ite(c, *[N('call', v.args[0], tuple(
                        y.args[j] if y.op == 'ite' and y.args[0] is c else
                        y.args[3 - j] if y.op == 'ite' and
                        y.args[0] is b_not(c) else y
                        for y in v.args[1]), v.args[2]) for j in (1, 2)])
                    break
        if v.op == 'ite' and depth and not self.one_domain(v, st):
            c, x, y = v.args

            def over(x, st):
                lits = self.literal_items(x, st)
                if lits is not None:
                    return self.unroll(s, lits, st, fr)
                return self.for_over(s, x, st, fr, depth - 1)
            return self.fork(c, lambda st: over(x, st),
                             lambda st: over(y, st), st)
        dom, elem, guard = self.iter_domain(it, st)
        return self.loop(st, fr, dom, elem, guard, s.target, None, s.body,
                         s.orelse)

    s_AsyncFor = s_For

    def unroll(self, s, lits, st, fr):
        lp = Loop()
        brk = []
        for x in lits:
            if st.dead:
                break
            fr.loops.append(lp)
            self.assign(s.target, x, st, fr)
            st = self.block(s.body, st, fr)
            fr.loops.pop()
            for pc, cs in reversed(lp.conts):
                st = self.merge(pc, cs, st) if not st.dead else cs
            lp.conts = []
        if s.orelse and not st.dead:
            st = self.block(s.orelse, st, fr)
        for pc, bs in reversed(lp.breaks):
            st = self.merge(pc, bs, st) if not st.dead else bs
        return st

    def s_While(self, s, st, fr):
        r = self.unroll_while(s, st, fr)
        if r is not None:
            return r
        return self.loop(st, fr, N('inf'), None, None, None, s.test, s.body,
                         s.orelse)

    def unroll_while(self, s, st, fr):
        """loops whose test is decided by constants are unrolled"""
        if s.orelse or any(isinstance(n, (ast.Break, ast.Continue))
                           for n in ast.walk(s)):
            return None
        if not any(isinstance(n, ast.Compare) for n in ast.walk(s.test)):
            return None
        saved = (list(self.events), list(self.raises),
                 dict(self.exc_count), self.order, list(fr.returns))
        cur = st.copy()
        for _ in range(self.UNROLL + 1):
            c = to_bool(self.deref(self.ev(s.test, cur, fr), cur))
            if c is FALSE:
                return cur
            if c is not TRUE:
                break
            cur = self.block(s.body, cur, fr)
            if cur.dead:
                break
        (self.events, self.raises, self.exc_count, self.order,
         fr.returns) = saved
        return None

    def loop(self, st, fr, dom, elem, guard, target, test, body, orelse):
        # --- which variables / cells are carried
        names = assigned_names(body)
        rebound = rebound_names(body)
        for n in extended_names(body):
            r = st.envs[fr.fid].get(n)
            if r is not None and r.op == 'ref' and (
                    T._listy(st.heap[r]) or st.heap[r] in self.list_mus):
                # += extends the list in place
                rebound.discard(n)
        if target is not None:
            tn = target_names(target)
        else:
            tn = set()
        names |= tn
        carried_cells = set()
        carried_stores = set()
        carried_env = set((fr.fid, n) for n in names)
        for fid, n in list(carried_env):
            pass
        # closures called inside may assign nonlocals: found by the dry run
        for _ in range(2):
            probe = st.copy()
            saved = (self.events, self.raises, self.exc_count, self.order,
                     fr.returns, fr.loops)
            self.events, self.raises = [], []
            self.exc_count = dict(self.exc_count)
            fr.returns = []
            bvar = N('bvar', uid())
            for fid, n in carried_env:
                if n in probe.envs[fid] and n not in tn:
                    v = probe.envs[fid][n]
                    if v.op in ('ref', 'item', 'attr', 'param') and \
                            n not in rebound:
                        continue
                    probe.envs[fid][n] = N('mu', uid())
                    if T.setty(self.deref(v, st)):
                        T.SET_MUS.add(probe.envs[fid][n])
            for r in carried_cells:
                probe.heap[r] = N('mu', uid())
                if T.setty(st.heap[r]):
                    T.SET_MUS.add(probe.heap[r])
                if T._listy(st.heap[r]) or st.heap[r] in self.list_mus:
                    self.list_mus.add(probe.heap[r])
            for l in carried_stores:
                probe.stores[l] = N('mu', uid())
            before = probe.copy()
            probe.pc = TRUE
            end, _b, _r = self.iteration(probe, fr, bvar, elem, guard,
                                         target, test, body)
            states = [end] + [x for _, x in _b] + [x[2] for x in _r]
            (self.events, self.raises, self.exc_count, self.order,
             fr.returns, fr.loops) = saved
            new = False
            for e in states:
                if e is None:
                    continue
                for r, v in before.heap.items():
                    if e.heap.get(r, v) is not v and \
                            r not in carried_cells:
                        carried_cells.add(r)
                        new = True
                for l in set(e.stores):
                    if e.stores[l] is not before.stores.get(l, l) and \
                            l not in carried_stores:
                        carried_stores.add(l)
                        new = True
                for fid, env in before.envs.items():
                    for n, v in env.items():
                        if e.envs.get(fid, {}).get(n, v) is not v and \
                                (fid, n) not in carried_env:
                            carried_env.add((fid, n))
                            new = True
            if not new:
                break
        # --- real pass
        bvar = N('bvar', uid())
        mus = {}
        inits = {}
        it = st.copy()
        it.pc = TRUE
        for fid, n in sorted(carried_env):
            if n in tn and fid == fr.fid:
                continue
            init = st.envs[fid].get(n)
            if init is None:
                continue
            m = N('mu', uid())
            mus[('env', fid, n)] = m
            inits[('env', fid, n)] = self.deref(init, st)
            it.envs[fid][n] = m
        for r in sorted(carried_cells, key=lambda x: x.id):
            m = N('mu', uid())
            mus[('heap', r)] = m
            inits[('heap', r)] = self.deref(st.heap[r], st)
            if T._listy(inits[('heap', r)]) or st.heap[r] in self.list_mus:
                self.list_mus.add(m)
            it.heap[r] = m
        for l in sorted(carried_stores, key=lambda x: x.id):
            if l.flags & (T.F_BVAR | T.F_MU):
                continue
            m = N('mu', uid())
            mus[('store', l)] = m
            inits[('store', l)] = self.deref(st.stores.get(l, l), st)
            it.stores[l] = m
        for k, m in mus.items():
            if T.setty(inits[k]):
                T.SET_MUS.add(m)
        # env variables which hold references: keep the reference
        for key in list(mus):
            if key[0] == 'env':
                v = st.envs[key[1]].get(key[2])
                if v is not None and v.op in (
                        'ref', 'item', 'attr', 'param') and \
                        key[2] not in rebound:
                    it.envs[key[1]][key[2]] = v
                    del mus[key]
                    del inits[key]
        outer_events, outer_raises = self.events, self.raises
        outer_returns = fr.returns
        self.events, self.raises, fr.returns = [], [], []
        it.sguard = {}
        end, brks, rets = self.iteration(it, fr, bvar, elem, guard, target,
                                         test, body)
        in_events, in_raises = self.events, self.raises
        self.events, self.raises, fr.returns = \
            outer_events, outer_raises, outer_returns
        # --- per iteration result state
        B = FALSE
        fin = end
        for pc, bs in reversed(brks):
            B = b_or(B, pc)
            if fin is None or fin.dead:
                fin = bs
            else:
                fin = self.merge(T.b_care(
                    pc, b_or(pc, fin.pc)), bs, fin)
        R = FALSE
        for pc, v, rs in reversed(rets):
            R = b_or(R, pc)
            if fin is None or fin.dead:
                fin = rs
            else:
                fin = self.merge(T.b_care(
                    pc, b_or(pc, fin.pc)), rs, fin)
        X = FALSE
        for g in in_raises:
            X = b_or(X, g)
        if fin is None:
            fin = it
        # --- steps
        steps = {}
        for key, m in mus.items():
            if key[0] == 'env':
                v = fin.envs[key[1]].get(key[2], m)
            elif key[0] == 'heap':
                v = fin.heap.get(key[1], m)
            else:
                v = fin.stores.get(key[1], m)
            steps[key] = self.deref(v, fin)
        lc = LoopCloser(self, dom, bvar, mus, inits, steps)
        # while loops: counter recognition
        testc = None
        if test is not None:
            testc = self.while_cond
            testc = to_bool(self.deref(testc, fin))
            lc.prepare_while(testc)
        B = self.dg(B, fin)
        R = self.dg(R, fin)
        X = self.dg(X, fin)
        lc.set_exit(B, R)
        out = st
        opc = st.pc
        # values after the loop
        for key in list(mus):
            v = lc.after(key)
            if key[0] == 'env':
                out.envs[key[1]][key[2]] = v
            elif key[0] == 'heap':
                out.heap[key[1]] = v
            else:
                out.stores[key[1]] = v
        for n in tn | names:
            if ('env', fr.fid, n) in mus:
                continue
            v = fin.envs[fr.fid].get(n)
            cur = out.envs[fr.fid].get(n)
            if cur is not None and cur.op == 'ref' and v is cur:
                continue
            if v is not None:
                if v.op == 'clo' or v.op == 'deco':
                    out.envs[fr.fid][n] = v
                    continue
                out.envs[fr.fid][n] = lc.last(self.deref(v, fin),
                                              cur if cur is not None
                                              else UNDEF, self, out)
        for loc, g in fin.sguard.items():
            g = self.dg(g, fin)
            if loc.flags & (T.F_BVAR | T.F_MU):
                val = self.deref(fin.stores.get(loc, loc), fin)
                node = lc.foreach(g, N('store', self.deref(loc, fin), val))
                self.order += 1
                self.events.append(Ev(opc, node, self.line, self.order))
                out.stores.pop(loc, None)
            else:
                gg = lc.exists(g)
                out.sguard[loc] = b_or(out.sguard.get(loc, FALSE),
                                       b_and(opc, gg))
        for loc in carried_stores:
            if loc.flags & (T.F_BVAR | T.F_MU):
                out.stores.pop(loc, None)
        for e in in_events:
            node = lc.foreach(self.dg(e.guard, fin),
                              self.deref(e.node, fin))
            if node is not None:
                self.events.append(Ev(opc, node, e.line, e.order))
        if X is not FALSE:
            xx = lc.exists(X)
            self.raises.append(b_and(opc, xx))
            out.pc = b_and(out.pc, b_not(xx))
        if R is not FALSE:
            rr = lc.exists(R)
            val = None
            for pc, v, rs in reversed(rets):
                v = self.deref(v, rs)
                val = v if val is None else ite(
                    T.b_care(pc, R), v, val)
            rv = lc.firstret(R, val)
            rst = out.copy()
            rst.pc = b_and(opc, rr)
            fr.returns.append((rst.pc, rv, rst))
            out.pc = b_and(out.pc, b_not(rr))
        for k, v in fin.counts.items():
            out.counts[k] = max(out.counts.get(k, 0), v)
        if out.pc is FALSE:
            out.dead = True
        if orelse and not out.dead:
            if B is FALSE:
                out = self.block(orelse, out, fr)
            else:
                c = lc.exists(B)
                return self.branch(c, [], orelse, out, fr)
        return out

    def iteration(self, it, fr, bvar, elem, guard, target, test, body):
        lp = Loop()
        fr.loops.append(lp)
        saved_returns = fr.returns
        fr.returns = []
        if target is not None:
            if guard is not None:
                it.pc = b_and(it.pc, guard(bvar))
            skipped = None
            if guard is not None:
                skipped = it.copy()
                skipped.pc = b_not(guard(bvar))
                lp.conts.append((skipped.pc, skipped))
            self.assign(target, elem(bvar), it, fr)
        if test is not None:
            c = to_bool(self.deref(self.ev(test, it, fr), it))
            wc = c
            it.pc = b_and(it.pc, c)
            if it.pc is FALSE:
                it.dead = True
        end = self.block(body, it, fr)
        if test is not None:
            self.while_cond = wc
        fr.loops.pop()
        rets = fr.returns
        fr.returns = saved_returns
        for pc, cs in reversed(lp.conts):
            if end.dead:
                end = cs
            else:
                end = self.merge(T.b_care(
                    pc, b_or(pc, end.pc)), cs, end)
        return end, lp.breaks, rets

    # ----------------------------------------------------------- assignment
    def assign(self, t, v, st, fr, aug=False):
        if isinstance(t, ast.Name):
            fid = self.owner(t.id, st, fr)
            st.envs[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.deref_shallow(v, st)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for i in range(k):
                    self.assign(t.elts[i], self.item(vv, num(i), st), st, fr)
                self.assign(t.elts[k].value, item(self.deref(vv, st), N(
                    'slice', num(k), num(-after) if after else NONE, NONE)),
                    st, fr)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j],
                                self.item(vv, num(j - after), st), st, fr)
            else:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.item(vv, num(i), st), st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.store_attr(base, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            self.store_item(t.value, t.slice, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported(type(t).__name__)

    def item(self, x, k, st):
        x = self.deref_shallow(x, st)
        return item(x, k)

    def owner(self, name, st, fr):
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in st.envs.get(p.fid, {}):
                    return p.fid
                p = p.parent
        return fr.fid

    def store_attr(self, base, name, v, st):
        base = self.deref(base, st)
        loc = attr(base, name)
        st.stores[loc] = v
        st.sguard[loc] = b_or(st.sguard.get(loc, FALSE), st.pc)
        # forget item stores below the old object
        for l in list(st.stores):
            if l is not loc and T.mentions(l, loc):
                if l in st.sguard:
                    self.emit(st, N('store', l, self.deref(
                        st.stores[l], st)))
                    del st.sguard[l]
                del st.stores[l]

    def store_item(self, base_e, idx_e, v, st, fr):
        t = self.tree_path(base_e, st, fr)
        if t is not None:
            k = self.key(self.deref(self.ev(idx_e, st, fr), st))
            self.change_path(t[0], t[1], lambda c: self.upd(c, k, v), TRUE,
                             st)
            return
        base = self.ev(base_e, st, fr)
        k = self.key(self.deref(self.ev(idx_e, st, fr), st))
        self.store_item_v(base_e, base, k, v, st, fr)

    # values read from a file are trees nobody else holds: changing an
    # element changes the tree
    def tree_path(self, e, st, fr):
        """(root, keys) if e is an element of such a tree"""
        keys = []
        while isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return None
            keys.append(e.slice)
            e = e.value
        if not keys or not isinstance(e, ast.Name):
            return None
        root = self.lookup(e.id, st, fr)
        if not root.flags & T.F_REF or not self.is_tree(root, st):
            return None
        keys = [self.val(k, st, fr) for k in reversed(keys)]
        c = root
        for k in keys:
            c = item(self.deref_shallow(c, st), k)
        return (root, keys) if self.owned(c, st) else None

    def is_tree(self, n, st):
        if n.op == 'ref':
            return self.is_tree(st.heap.get(n, UNDEF), st)
        if n.op == 'ite':
            return self.is_tree(n.args[1], st) or self.is_tree(n.args[2], st)
        if n.op in ('aupd', 'item', 'lmut'):
            return self.is_tree(n.args[1 if n.op == 'lmut' else 0], st)
        return n.op == 'call' and n.args[0].op == 'ext' and \
            n.args[0].args[0] in TREES

    def owned(self, n, st):
        if n.op == 'ref' or n.op == 'dict' or n is UNDEF:
            return True
        if n.op == 'ite':
            return self.owned(n.args[1], st) and self.owned(n.args[2], st)
        return self.is_tree(n, st)

    def change_path(self, c, keys, f, g, st):
        """c with the element at keys replaced by f of it where g holds"""
        if c.op == 'ref':
            old = st.heap[c]
            new = self.change_path(old, keys, f, g, st)
            if new is not old:
                st.heap[c] = ite(g, new, old)
            return c
        if c.op == 'ite':
            return ite(c.args[0],
                       self.change_path(c.args[1], keys, f,
                                        b_and(g, c.args[0]), st),
                       self.change_path(c.args[2], keys, f,
                                        b_and(g, b_not(c.args[0])), st))
        if not keys:
            return f(c)
        if keys[0].op == 'ite':
            b, x, y = keys[0].args
            return ite(b, self.change_path(c, [x] + keys[1:], f,
                                           b_and(g, b), st),
                       self.change_path(c, [y] + keys[1:], f,
                                        b_and(g, b_not(b)), st))
        old = item(c, keys[0])
        new = self.change_path(old, keys[1:], f, g, st)
        return c if new is old else self.upd(c, keys[0], new)

    def mutate_path(self, t, meth, args, kw, st, fr):
        out = []

        def f(c):
            r = self.new_ref(st, c)
            v = self.mutate(r, meth, args, kw, st, fr)
            out.append((c, v))
            return st.heap.pop(r)
        self.change_path(t[0], t[1], f, TRUE, st)
        if any(v is None for _, v in out):
            raise Unsupported('change of a tree')
        if len(out) == 1 or all(v is out[0][1] for _, v in out):
            return out[0][1]
        # the result comes from the branch which was taken
        res = dict(out)

        def pick(c, keys):
            if c.op == 'ref':
                return pick(cells.get(c, UNDEF), keys)
            if c.op == 'ite':
                return ite(c.args[0], pick(c.args[1], keys),
                           pick(c.args[2], keys))
            if not keys:
                return res.get(c, UNDEF)
            return pick(item(c, keys[0]), keys[1:])
        cells = t[2]
        return pick(t[0], t[1])

    def branch_off(self, e, st, fr):
        """an element of a tree under a name of its own"""
        t = self.tree_path(e, st, fr) if isinstance(
            e, ast.Subscript) and not fr.loops else None
        if t is None:
            return None

        def f(c):
            return c if c.op == 'ref' else self.new_ref(st, c)
        self.change_path(t[0], t[1], f, TRUE, st)
        c = t[0]
        for k in t[1]:
            c = item(self.deref_shallow(c, st), k)
        return c

    def store_item_v(self, base_e, base, k, v, st, fr):
        if base.op == 'ref':
            c = st.heap[base]
            st.heap[base] = self.upd(c, k, v)
            return
        if base.op == 'ite' and base.flags & T.F_REF:
            def go(n, g):
                if n.op == 'ite':
                    go(n.args[1], b_and(g, n.args[0]))
                    go(n.args[2], b_and(g, b_not(n.args[0])))
                elif n.op == 'ref':
                    c = st.heap[n]
                    st.heap[n] = ite(g, self.upd(c, k, v), c)
                else:
                    s2 = st.copy()
                    s2.pc = b_and(st.pc, g)
                    self.emit(s2, N('setitem', self.deref(n, st), k,
                                    self.deref(v, st)))
            go(base, TRUE)
            return
        base = self.deref(base, st)
        if self.is_fresh(base) and isinstance(base_e, (ast.Name,
                                                       ast.Subscript)):
            newv = self.upd(base, k, self.deref(v, st))
            if not self.set_outer(base_e, newv, st, fr):
                self.assign(base_e, newv, st, fr)
            return
        if isinstance(base_e, ast.Name) and self.is_local(base):
            newv = self.upd(base, k, self.deref(v, st))
            if not self.set_outer(base_e, newv, st, fr):
                self.assign(base_e, newv, st, fr)
            return
        loc = item(base, k)
        if T.is_const(k) and loc.op == 'item':
            st.stores[loc] = v
            st.sguard[loc] = b_or(st.sguard.get(loc, FALSE), st.pc)
        else:
            for l in list(st.stores):
                if l.op == 'item' and l.args[0] is base:
                    if l in st.sguard:
                        self.emit(st, N('store', l, self.deref(
                            st.stores[l], st)))
                        del st.sguard[l]
                    del st.stores[l]
            for g, x in value_cases(v):
                s2 = st.copy()
                s2.pc = b_and(st.pc, g)
                if s2.pc is not FALSE:
                    self.emit(s2, N('setitem', base, k, x))
            if v.op == 'ref' and not fr.loops and loc.op == 'item' and \
                    not loc.flags & (T.F_BVAR | T.F_MU):
                # the container put there is found again
                st.stores[loc] = v

    def set_outer(self, e, v, st, fr):
        """a container of an enclosing function, changed by a closure"""
        if not isinstance(e, ast.Name) or e.id in st.envs.get(fr.fid, {}):
            return False
        p = fr.parent
        while p is not None:
            if e.id in st.envs.get(p.fid, {}):
                st.envs[p.fid][e.id] = v
                return True
            p = p.parent
        return False

    def upd(self, c, k, v):
        if c.op in ('dict', 'dupd', 'dmerge', 'DictC', 'ddel'):
            return T.dict_set(c, k, v)
        if c.op == 'seq' and k.op == 'num' and k.args[0].denominator == 1:
            i = int(k.args[0])
            if -len(c.args) <= i < len(c.args):
                a = list(c.args)
                a[i] = v
                return seq(a)
        if c.op == 'aupd':
            return T.array_set(c, k, v)
        if c.op == 'ite':
            return ite(c.args[0], self.upd(c.args[1], k, v),
                       self.upd(c.args[2], k, v))
        if c.op == 'call' and c.args[0].op == 'ext' and \
                c.args[0].args[0] in ('dict', 'copy', 'deepcopy'):
            return T.dict_set(c, k, v)
        return T.array_set(c, k, v)

    def is_local(self, n):
        if n.op == 'ite':
            return self.is_local(n.args[1]) and self.is_local(n.args[2])
        return n.op == 'mu' or self.is_fresh(n)

    def is_fresh(self, n):
        if n.op in ('param', 'attr', 'item', 'mu', 'last', 'fix', 'after',
                    'iterv'):
            return n.op in ('last', 'fix')
        if n.op == 'ite':
            return self.is_fresh(n.args[1]) and self.is_fresh(n.args[2])
        return True

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, st, fr)

    def val(self, e, st, fr):
        return self.deref(self.ev(e, st, fr), st)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            env = st.envs.get(f.fid)
            if env is not None and name in env and name not in f.globals:
                return env[name]
            f = f.parent
        return self.global_name(name, fr.module, st)

    def global_name(self, name, module, st):
        r = self.repo.resolve_name(module, name)
        if r is None:
            if name in BUILTINS:
                return N('ext', name)
            import builtins
            if hasattr(builtins, name):
                return N('ext', name)
            return N('ext', 'undefined:' + name)
        return self.res_node(r, st)

    def res_node(self, r, st=None):
        kind, o = r
        if kind == 'module':
            return N('mod', o.name)
        if kind == 'class':
            return N('glob', o.module.name + '.' + o.name)
        if kind == 'func':
            return N('glob', o.module.name + '.' + o.name)
        if kind == 'method':
            return N('glob', o.cls.qual + '.' + o.name)
        if kind == 'const':
            mod, nm = o
            return self.const_value(mod, nm, st)
        if kind == 'classattr':
            c, v = o
            return self.eval_const_expr(v, c.module)
        if kind == 'missing':
            return N('ext', 'missing:' + o)
        return N('ext', ext_name(o))

    _const_busy = set()

    def const_value(self, mod, nm, st):
        key = (self.repo.label, mod.name, nm)
        if mod.const_count.get(nm, 0) == 1 and \
                key not in self._const_busy and \
                not is_big(mod.consts[nm]):
            self._const_busy.add(key)
            try:
                v = self.eval_const_expr(mod.consts[nm], mod)
            finally:
                self._const_busy.discard(key)
            if v is not None:
                return v
        return N('glob', mod.name + '.' + nm)

    def eval_const_expr(self, expr, mod):
        s = State()
        f = Frame(None, mod, None, None)
        s.envs[f.fid] = {}
        ev0, ra0 = self.events, self.raises
        self.events, self.raises = [], []
        try:
            v = self.deref(self.ev(expr, s, f), s)
            if self.events:
                v = None
        except Unsupported:
            v = None
        finally:
            self.events, self.raises = ev0, ra0
        return v

    def qual_node(self, q):
        return self.res_node(self.repo.resolve(q))

    def e_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        return self.get_attr(base, e.attr, st, fr)

    def get_attr(self, base, name, st, fr):
        if base.op == 'ext':
            return N('ext', ext_name(base.args[0] + '.' + name))
        if base.op == 'mod':
            return self.res_node(self.repo.resolve(
                base.args[0] + '.' + name), st)
        if base.op == 'glob':
            r = self.repo.resolve(base.args[0])
            if r[0] == 'class':
                r2 = self.repo.resolve(base.args[0] + '.' + name)
                if r2[0] in ('method', 'classattr'):
                    return self.res_node(r2, st)
        if base.op == 'super':
            return N('attr', base, name)
        base = self.deref(base, st)
        loc = attr(base, name)
        if loc in st.stores:
            return st.stores[loc]
        # new properties and class constants of self
        if self.is_self(base, fr):
            cls = self.self_class(fr)
            m = self.repo.find_method(cls, name)
            if m is not None and m.is_property:
                if self.should_inline_method(cls, name, m):
                    return self.inline(m, [base], {}, st, fr, cls)
            elif m is None:
                a = self.repo.find_assign(cls, name)
                if a is not None and self.is_new_attr(cls, name):
                    v = self.eval_const_expr(a[1], a[0].module)
                    if v is not None:
                        return v
        return loc

    def is_self(self, node, fr):
        f = fr
        while f is not None and f.parent is not None and f.cls is None:
            f = f.parent
        return node is N('param', 0) and self.root_cls is not None

    root_cls = None

    def self_class(self, fr):
        return self.root_cls

    def other_class(self, cls):
        if self.other is None:
            return None
        return self.other.get_class(cls.qual)

    def is_new_attr(self, cls, name):
        if self.other is None:
            return False
        oc = self.other_class(cls)
        if oc is None:
            return True
        return self.other.find_assign(oc, name) is None and \
            self.other.find_method(oc, name) is None

    def should_inline_method(self, cls, name, m):
        if m.qual in self.force:
            return True
        if self.other is None or self.no_inline:
            return False
        oc = self.other_class(cls)
        if oc is None:
            return True
        return self.other.find_method(oc, name) is None and \
            self.other.find_assign(oc, name) is None

    def should_inline_func(self, f):
        if f.qual in self.force:
            return True
        if self.other is None or self.no_inline:
            return False
        if f.cls is not None:
            return self.should_inline_method(f.cls, f.name, f)
        r = self.other.resolve(f.module.name + '.' + f.name)
        return r[0] in ('missing', 'ext')

    def e_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        k = self.key(self.val(e.slice, st, fr))
        b = self.deref_shallow(base, st)
        if b.op not in ('dict', 'seq', 'dupd', 'cat', 'ite', 'aupd'):
            b = self.deref(b, st)
        r = item(b, k)
        if r in st.stores:
            return st.stores[r]
        return r

    def key(self, k):
        """x[a, :] is x[a]"""
        if k.op != 'seq' or len(k.args) < 2 or any(
                x.op in ('star', 'ellipsis') for x in k.args):
            return k
        a = list(k.args)
        while len(a) > 1 and a[-1].op == 'slice' and all(
                x is NONE for x in a[-1].args):
            a.pop()
        return k if len(a) == len(k.args) else \
            seq(a) if len(a) > 1 else a[0]

    def e_Slice(self, e, st, fr):
        return N('slice', *[NONE if x is None else self.val(x, st, fr)
                            for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e.elts, st, fr)
        return seq([self.ev(x, st, fr) for x in e.elts])

    def star_seq(self, elts, st, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.val(x.value, st, fr)
                if v.op == 'call' and v.args[0].op == 'ext' and \
                        v.args[0].args[0] in ('list', 'tuple'):
                    v = v.args[1][0] if v.args[1] else T.EMPTY
                parts.append(v if T._listy(v) else T.new_list(v))
            else:
                parts.append(seq([self.ev(x, st, fr)]))
        return T.cat(parts)

    def e_List(self, e, st, fr):
        return self.new_ref(st, self.e_Tuple(e, st, fr))

    def e_Set(self, e, st, fr):
        return N('setlit', *sorted(
            {self.val(x, st, fr) for x in e.elts}, key=lambda n: n.id))

    def e_Dict(self, e, st, fr):
        d = T.EMPTYD
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = T.dict_merge(d, self.deref_shallow(
                    self.ev(v, st, fr), st))
            else:
                kk = self.val(k, st, fr)
                d = T.dict_set(d, kk, self.ev(v, st, fr))
        return self.new_ref(st, d)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(str(v.value)))
            else:
                x = self.val(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.val(v.format_spec, st, fr)
                    spec = sp.args[0] if sp.op == 'str' else sp
                conv = chr(v.conversion) if v.conversion != -1 else ''
                parts.append(self.fmt_part(x, spec, conv))
        return T.fmt(parts)

    def fmt_part(self, x, spec, conv=''):
        if not spec and not conv:
            return x
        if not spec and conv == 's':
            return x
        if isinstance(spec, str) and spec.endswith('d') and not conv and \
                x.op == 'num' and x.args[0].denominator == 1:
            try:
                return const(format(int(x.args[0]), spec))
            except ValueError:
                pass
        return N('fmtspec', spec if isinstance(spec, T.Node) else
                 const(spec), const(conv), x)

    def e_FormattedValue(self, e, st, fr):
        return self.val(e.value, st, fr)

    def e_UnaryOp(self, e, st, fr):
        v = self.val(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return bval(b_not(to_bool(v)))
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if T.is_boolean(v):
                return bval(b_not(to_bool(v)))
            return N('op', 'invert', v)
        raise Unsupported('unary')

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        ca, cb = self.deref_shallow(a, st), self.deref_shallow(b, st)
        if isinstance(e.op, ast.Add) and (T._listy(ca) or T._listy(cb)):
            return self.new_ref(st, T.cat([ca, cb]))
        if isinstance(e.op, ast.Mult) and (T._listy(ca) or T._listy(cb)):
            return self.new_ref(st, T.mul(self.deref(a, st),
                                          self.deref(b, st)))
        return self.binop(e.op, self.deref(a, st), self.deref(b, st))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return T.powr(a, b)
        if isinstance(op, ast.Mod) and T._stry(a):
            return N('fmt%', a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if T.is_boolean(a) or T.is_boolean(b):
                f = b_and if isinstance(op, ast.BitAnd) else b_or
                return bval(f(to_bool(a), to_bool(b)))
            if T.setty(a) or T.setty(b):
                return T.set_op(type(op).__name__, T.as_set(a), T.as_set(b))
            x, y = (a, b) if a.id <= b.id else (b, a)
            return N('op', type(op).__name__, x, y)
        if isinstance(op, ast.BitXor):
            x, y = (a, b) if a.id <= b.id else (b, a)
            return N('op', 'BitXor', x, y)
        if isinstance(op, ast.FloorDiv) and a.op == 'num' and \
                b.op == 'num' and b.args[0] != 0:
            return num(a.args[0] // b.args[0])
        return N('op', type(op).__name__, a, b)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        vals = []
        pc0 = st.pc
        cur = None
        conds = []
        for x in e.values:
            v = self.val(x, st, fr)
            vals.append(v)
            c = to_bool(v)
            conds.append(c)
            st.pc = b_and(st.pc, c if is_and else b_not(c))
        st.pc = pc0
        res = vals[-1]
        for v, c in reversed(list(zip(vals[:-1], conds[:-1]))):
            if is_and:
                res = ite(c, res, v if not T.is_boolean(v) else FALSE) \
                    if not (T.is_boolean(v) and T.is_boolean(res)) else \
                    bval(b_and(c, to_bool(res)))
            else:
                res = ite(c, v if not T.is_boolean(v) else TRUE, res) \
                    if not (T.is_boolean(v) and T.is_boolean(res)) else \
                    bval(b_or(c, to_bool(res)))
        return res

    def e_Compare(self, e, st, fr):
        left = self.val(e.left, st, fr)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.val(c, st, fr)
            r = b_and(r, self.cmp(op, left, right))
            left = right
        return bval(r)

    def cmp(self, op, a, b):
        if isinstance(op, ast.Lt):
            return T.lt(a, b)
        if isinstance(op, ast.Gt):
            return T.lt(b, a)
        if isinstance(op, ast.LtE):
            if T.setty(a) and T.setty(b):
                return T.subset(a, b)
            return b_not(T.lt(b, a))
        if isinstance(op, ast.GtE):
            if T.setty(a) and T.setty(b):
                return T.subset(b, a)
            return b_not(T.lt(a, b))
        if isinstance(op, ast.Eq):
            return T.eq(a, b)
        if isinstance(op, ast.NotEq):
            return b_not(T.eq(a, b))
        if isinstance(op, ast.Is):
            return T.is_(a, b)
        if isinstance(op, ast.IsNot):
            return b_not(T.is_(a, b))
        if isinstance(op, ast.In):
            return T.contains(b, a)
        if isinstance(op, ast.NotIn):
            return b_not(T.contains(b, a))
        raise Unsupported('cmp')

    def e_IfExp(self, e, st, fr):
        c = to_bool(self.val(e.test, st, fr))
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        s1 = st.copy()
        s1.pc = b_and(st.pc, c)
        s2 = st.copy()
        s2.pc = b_and(st.pc, b_not(c))
        a = self.ev(e.body, s1, fr)
        b = self.ev(e.orelse, s2, fr)
        n = N('ref', uid())
        tmp = ('#ifexp', n)
        s1.envs[fr.fid][tmp] = a
        s2.envs[fr.fid][tmp] = b
        m = self.merge(c, s1, s2)
        v = m.envs[fr.fid].pop(tmp)
        self.take(st, m)
        return v

    def take(self, st, m):
        st.envs, st.heap, st.stores = m.envs, m.heap, m.stores
        st.sguard, st.pc, st.dead, st.counts = \
            m.sguard, m.pc, m.dead, m.counts

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        return N('star', self.val(e.value, st, fr))

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.val(e.value, st, fr)
        self.emit(st, N('yield', v))
        return N('sent')

    def e_YieldFrom(self, e, st, fr):
        v = self.val(e.value, st, fr)
        self.emit(st, N('yieldfrom', v))
        return N('sent')

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        return self.new_closure(Func(fr.module, None, e), st, fr)

    def new_closure(self, f, st, fr):
        """a function object: its default values are taken now"""
        a = f.node.args
        dv = [UNDEF if d is None else self.ev(d, st, fr)
              for d in a.defaults + a.kw_defaults]
        c = N('clo', uid(), *[v if v.op == 'ref' or self.has_clo(v)
                              else self.deref(v, st) for v in dv])
        self.closures[c.args[0]] = (f, fr)
        self.closure_frames.add(fr.fid)
        return c

    # comprehensions: translate to loops over an accumulator
    def comp(self, gens, st, fr, emit_elem, acc_init):
        """build nested For statements appending to a fresh cell"""
        acc = self.new_ref(st, acc_init)
        name = '#acc%d' % uid()
        # comprehension scope: temporarily shadow target names
        tnames = set()
        for g in gens:
            tnames |= target_names(g.target)
        saved = {n: st.envs[fr.fid].get(n) for n in tnames}
        st.envs[fr.fid][name] = acc
        for n in tnames:
            st.envs[fr.fid].pop(n, None)
        body = [emit_elem(name)]
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(
                    test=c, body=body, orelse=[]), c)]
            body = [ast.copy_location(ast.For(
                target=g.target, iter=g.iter, body=body, orelse=[]),
                g.iter)]
        st2 = self.block(body, st, fr)
        if st2 is not st:
            self.take(st, st2)
        st.envs[fr.fid].pop(name, None)
        for n, v in saved.items():
            if v is None:
                st.envs[fr.fid].pop(n, None)
            else:
                st.envs[fr.fid][n] = v
        return acc

    def e_ListComp(self, e, st, fr):
        def mk(name):
            return ast.copy_location(ast.Expr(value=ast.copy_location(
                ast.Call(func=ast.Attribute(
                    value=ast.Name(id=name, ctx=ast.Load()), attr='append',
                    ctx=ast.Load()), args=[e.elt], keywords=[]), e)), e)
        return self.comp(e.generators, st, fr, mk, T.EMPTY)

    def e_GeneratorExp(self, e, st, fr):
        return self.deref(self.e_ListComp(e, st, fr), st)

    def e_SetComp(self, e, st, fr):
        return N('call', N('ext', 'set'),
                 (self.deref(self.e_ListComp(e, st, fr), st),), ())

    def e_DictComp(self, e, st, fr):
        def mk(name):
            return ast.copy_location(ast.Assign(
                targets=[ast.Subscript(
                    value=ast.Name(id=name, ctx=ast.Load()), slice=e.key,
                    ctx=ast.Store())], value=e.value), e)
        return self.comp(e.generators, st, fr, mk, T.EMPTYD)

    # --------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        return self.ev_call(e, st, fr, stmt=False)

    def ev_call(self, e, st, fr, stmt):
        d = dotted(e.func)
        if d is not None and is_logger(d) and not d.endswith('getLogger'):
            return NONE
        if d == 'print' and self.lookup_is_builtin('print', st, fr):
            return NONE
        # element of a tree
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS \
                and isinstance(e.func.value, ast.Subscript):
            t = self.tree_path(e.func.value, st, fr)
            if t is not None and not any(isinstance(
                    a, ast.Starred) for a in e.args) and all(
                        k.arg for k in e.keywords):
                args = [self.ev(a, st, fr) for a in e.args]
                kw = {k.arg: self.ev(k.value, st, fr) for k in e.keywords}
                return self.mutate_path(t + (dict(st.heap),), e.func.attr,
                                        args, kw, st, fr)
        # receiver / callee
        recv = None
        meth = None
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and \
                    e.func.attr in MUTATORS:
                self.promote(e.func.value, st, fr, mu_only=True)
            recv = self.ev(e.func.value, st, fr)
            meth = e.func.attr
            if recv.op in ('ext', 'mod') or (
                    recv.op == 'glob' and self.repo.resolve(
                        recv.args[0])[0] in ('class', 'func')):
                f = self.get_attr(recv, meth, st, fr)
                recv = None
            else:
                f = None
        else:
            f = self.ev(e.func, st, fr)
        if f is not None and f is N('ext', 'super'):
            return N('super')
        # arguments
        prom = self.will_inline(f, recv, meth, fr)
        args = []
        for a in e.args:
            if prom and isinstance(a, ast.Name):
                self.promote(a, st, fr)
            if prom:
                v = self.branch_off(a, st, fr)
                if v is not None:
                    args.append(v)
                    continue
            if isinstance(a, ast.Starred):
                v = self.deref_shallow(self.ev(a.value, st, fr), st)
                if v.op == 'seq':
                    args.extend(v.args)
                else:
                    args.append(N('star', self.deref(v, st)))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        dstar = []
        for k in e.keywords:
            if prom and isinstance(k.value, ast.Name) and k.arg is not None:
                self.promote(k.value, st, fr)
            v = self.branch_off(k.value, st, fr) if prom else None
            if v is None:
                v = self.ev(k.value, st, fr)
            if k.arg is None:
                dv = self.deref_shallow(v, st)
                if dv.op == 'dict' and all(
                        x.op == 'str' for x, _ in dv.args[0]):
                    for x, y in dv.args[0]:
                        kw[x.args[0]] = y
                else:
                    base = dv
                    while base.op == 'call' and base.args[0] is N(
                            'ext', 'copy'):
                        base = base.args[1][0]
                    extra = []
                    if base.op == 'dmerge' and base.args[0].op == 'dict' \
                            and all(x.op == 'str' for x, _ in
                                    base.args[0].args[0]):
                        # a repeated keyword is an error in the one form
                        # and an override in the other
                        for x, y in base.args[0].args[0]:
                            kw[x.args[0]] = y
                        base = base.args[1]
                    while base.op == 'dupd' and base.args[1].op == 'str':
                        extra.append((base.args[1].args[0], base.args[2]))
                        base = base.args[0]
                        while base.op == 'call' and base.args[0] is N(
                                'ext', 'copy'):
                            base = base.args[1][0]
                    for x, y in reversed(extra):
                        kw[x] = y
                    base = self.deref(base, st)
                    keys = entry_keys(base)
                    if keys is None:
                        dstar.append(base)
                    for x in keys or ():
                        y = item(base, x)
                        kw.setdefault(x.args[0], st.stores.get(y, y))
            else:
                kw[k.arg] = v
        self.line = getattr(e, 'lineno', self.line)
        if recv is not None:
            return self.call_method(recv, meth, args, kw, dstar, st, fr,
                                    stmt, e)
        return self.call_value(f, args, kw, dstar, st, fr, stmt, e)

    def will_inline(self, f, recv, meth, fr):
        if recv is not None:
            if not self.is_self(recv, fr):
                return False
            cls = self.self_class(fr)
            m = cls and self.repo.find_method(cls, meth)
            return bool(m)
        if f is None:
            return False
        if f.op == 'clo':
            return True
        if f.op == 'glob':
            r = self.repo.resolve(f.args[0])
            return r[0] in ('func', 'method')
        return False

    def promote(self, name, st, fr, mu_only=False):
        """give a local mutable value an identity before it is shared"""
        fid = fr.fid
        f = fr
        while f is not None and name.id not in st.envs.get(fid, {}):
            f = f.parent
            fid = f.fid if f is not None else None
        if f is None:
            return
        v = st.envs[fid][name.id]
        if v.op == 'ite' and v.flags & T.F_REF:
            v = self.deref(v, st)
        if v.flags & T.F_REF or not self.promotable(v):
            return
        if mu_only and v.op != 'mu':
            return
        st.envs[fid][name.id] = self.new_ref(st, v)

    def promotable(self, v):
        if v.op == 'const' or v is UNDEF:
            return False
        if v.op == 'ite':
            # None cannot be changed: the other branch decides
            a, b = v.args[1], v.args[2]
            return (self.promotable(a) or a is NONE) and (
                self.promotable(b) or b is NONE) and not a is b
        if v.op == 'mu':
            return True
        if v.op not in ('call', 'aupd', 'dupd', 'last', 'fix', 'after',
                        'dmerge', 'DictC', 'Flat', 'cat', 'seq', 'dict'):
            return False
        if v.op == 'call' and v.args[0].op == 'ext' and \
                v.args[0].args[0] in ('len', 'str', 'int', 'float', 'range'):
            return False
        return self.is_fresh(v)

    def lookup_is_builtin(self, name, st, fr):
        return self.lookup(name, st, fr) is N('ext', name)

    def call_value(self, f, args, kw, dstar, st, fr, stmt, e):
        if f.op == 'deco':
            inner = f
            while inner.op == 'deco':
                inner = inner.args[1]
            if inner.op == 'clo':
                f = inner
        if f.op == 'clo':
            func, cfr = self.closures[f.args[0]]
            key = (func.qual, func.line, id(func.node))
            if len(self.stack) < self.MAX_DEPTH and key not in self.stack \
                    and not dstar and (
                        not func.is_generator or
                        listed(func.node, True) is not None):
                return self.inline_closure(f, args, kw, st, fr, e)
        if f.op == 'ite':
            # call of a selected function
            c, a, b = f.args
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = b_and(st.pc, c), b_and(st.pc, b_not(c))
            tmp = '#callite%d' % uid()
            s1.envs[fr.fid][tmp] = self.call_value(
                a, args, kw, dstar, s1, fr, stmt, e)
            s2.envs[fr.fid][tmp] = self.call_value(
                b, args, kw, dstar, s2, fr, stmt, e)
            m = self.merge(c, s1, s2)
            v = m.envs[fr.fid].pop(tmp)
            self.take(st, m)
            return v
        if f.op == 'attr':
            # a bound method taken earlier
            return self.call_method(f.args[0], f.args[1], args, kw, dstar,
                                    st, fr, stmt, e)
        if f.op == 'ext':
            return self.call_ext(f.args[0], args, kw, dstar, st, fr, stmt, e)
        if f.op == 'glob':
            r = self.repo.resolve(f.args[0])
            if r[0] in ('func', 'method'):
                func = r[1]
                if self.should_inline_func(func) and self.can_inline(func):
                    a2 = list(args)
                    if func.is_classmethod:
                        a2 = [N('glob', func.cls.qual)] + a2
                    return self.inline(func, a2, kw, st, fr, func.cls,
                                       dstar)
                return self.opaque_pkg(func, None, f, args, kw, dstar, st,
                                       stmt)
            if r[0] == 'class':
                return self.construct(r[1], f, args, kw, dstar, st, stmt)
        return self.opaque(f, args, kw, dstar, st, stmt,
                           impure=stmt, name=None)

    def construct(self, cls, f, args, kw, dstar, st, stmt):
        init = self.repo.find_method(cls, '__init__')
        a = [self.deref(x, st) for x in args]
        k = {n: self.deref(v, st) for n, v in kw.items()}
        if init is not None:
            a, k = self.bind_canonical(init, [N('newself')] + a, k, dstar)
            a = a[1:]
        n = N('call', f, tuple(a), self.kwt(k, dstar))
        if stmt:
            self.emit(st, n)
        return n

    def kwt(self, k, dstar):
        out = [(x, y) for x, y in k.items()]
        out.sort(key=lambda t: t[0])
        for i, d in enumerate(dstar):
            out.append(('**%d' % i, d))
        return tuple(out)

    def can_inline(self, func):
        return len(self.stack) < self.MAX_DEPTH and \
            func.qual not in self.stack and (
                not func.is_generator or listed(func.node) is not None and
                not self.effects.impure.get(func.name, True))

    def bind_canonical(self, func, args, kw, dstar):
        """normalise positional/keyword arguments using the signature"""
        a = func.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if any(x.op == 'star' for x in args):
            return list(args), dict(kw)
        out = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                out[i] = v
            else:
                rest.append(v)
        kk = {}
        for n, v in kw.items():
            if n in pos:
                out[pos.index(n)] = v
            else:
                kk[n] = v
        # defaults
        nd = len(a.defaults)
        if not dstar:
            for i, p in enumerate(pos):
                j = i - (len(pos) - nd)
                if j >= 0 and i not in out:
                    dv = self.eval_const_expr(a.defaults[j], func.module)
                    if dv is not None:
                        out[i] = dv
            for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
                if dflt is not None and p.arg not in kk:
                    dv = self.eval_const_expr(dflt, func.module)
                    if dv is not None:
                        kk[p.arg] = dv
        # trailing default-valued parameters unknown to the other side
        lim = len(pos)
        if self.other is not None:
            of = self.other_func(func)
            if of is not None:
                oa = of.node.args
                opos = [p.arg for p in oa.posonlyargs + oa.args]
                for i in range(len(opos), lim):
                    j = i - (lim - nd)
                    if j >= 0 and i in out:
                        dv = self.eval_const_expr(a.defaults[j],
                                                  func.module)
                        if out[i] is dv:
                            del out[i]
                okw = {p.arg for p in oa.kwonlyargs}
                for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
                    if p.arg not in okw and p.arg not in opos and \
                            dflt is not None and p.arg in kk and \
                            kk[p.arg] is self.eval_const_expr(
                                dflt, func.module) and oa.kwarg is None:
                        del kk[p.arg]
        res = []
        i = 0
        while i in out:
            res.append(out.pop(i))
            i += 1
        for i, v in out.items():
            kk['#%d' % i] = v
        res.extend(rest)
        return res, kk

    def other_func(self, func):
        if self.other is None:
            return None
        if func.cls is not None:
            oc = self.other.get_class(func.cls.qual)
            return None if oc is None else self.other.find_method(
                oc, func.name)
        return self.other.find_func(func.qual)

    def bind_env(self, func, args, kw, st, dstar=()):
        a = func.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        extra = []
        rest = None
        for i, v in enumerate(args):
            if v.op == 'star' and i >= len(pos):
                # handed on as a whole
                rest = [x.args[0] if x.op == 'star' else seq([x])
                        for x in args[i:]]
                rest = rest[0] if len(rest) == 1 and not extra else \
                    T.cat([seq(extra)] + rest)
                break
            if v.op == 'star':
                # unpack into the remaining parameters
                lst = v.args[0]
                j = 0
                for p in pos[i:]:
                    if p not in kw:
                        env[p] = item(lst, num(j))
                        j += 1
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            env[a.vararg.arg] = rest if rest is not None else seq(extra)
        kws = {}
        konly = [p.arg for p in a.kwonlyargs]
        for n, v in kw.items():
            if n in pos or n in konly:
                env[n] = v
            else:
                kws[n] = v
        nd = len(a.defaults)
        ds = dstar[0] if dstar else None
        for i, p in enumerate(pos):
            j = i - (len(pos) - nd)
            if p not in env:
                if j >= 0:
                    dv = self.eval_const_expr(a.defaults[j], func.module)
                    if dv is None:
                        dv = N('default', func.qual, p)
                    elif dv.op in ('dict', 'seq') and not isinstance(
                            a.defaults[j], ast.Tuple):
                        dv = self.new_ref(st, dv)
                    if ds is not None:
                        k = const(p)
                        dv = ite(T.contains(ds, k), item(ds, k),
                                 self.deref(dv, st))
                    env[p] = dv
                else:
                    env[p] = item(ds, const(p)) if ds is not None else UNDEF
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                dv = self.eval_const_expr(dflt, func.module) \
                    if dflt is not None else UNDEF
                env[p.arg] = dv if dv is not None else UNDEF
        if a.kwarg:
            d = T.EMPTYD
            if ds is not None:
                d = ds
            for n, v in sorted(kws.items()):
                d = T.dict_set(d, const(n), v)
            env[a.kwarg.arg] = self.new_ref(st, d)
        return env

    def inline(self, func, args, kw, st, fr, cls, dstar=()):
        self.inlined.add(func.qual)
        nf = Frame(func, func.module, cls, None, func.qual)
        st.envs[nf.fid] = self.bind_env(func, args, kw, st, dstar)
        self.stack.append(func.qual)
        pc0 = st.pc
        body = listed(func.node) if func.is_generator else func.node.body
        end = self.run_body(body, st.copy(), nf)
        self.stack.pop()
        val, out = self.finish_frame(nf, end, pc0)
        if nf.fid not in self.closure_frames:
            out.envs.pop(nf.fid, None)
        else:
            val = self.bind_returned(val, out, nf)
        self.take(st, out)
        return val

    def inline_closure(self, f, args, kw, st, fr, e):
        func, cfr = self.closures[f.args[0]]
        nf = Frame(func, cfr.module, cfr.cls, cfr, func.qual)
        st.envs[nf.fid] = self.bind_env_closure(f, args, kw, st)
        key = (func.qual, func.line, id(func.node))
        self.stack.append(key)
        pc0 = st.pc
        if isinstance(func.node, ast.Lambda):
            v = self.ev(func.node.body, st, nf)
            self.stack.pop()
            st.envs.pop(nf.fid, None)
            return v
        body = listed(func.node) if func.is_generator else func.node.body
        end = self.run_body(body, st.copy(), nf)
        self.stack.pop()
        val, out = self.finish_frame(nf, end, pc0)
        if nf.fid not in self.closure_frames:
            out.envs.pop(nf.fid, None)
        else:
            val = self.bind_returned(val, out, nf)
        self.take(st, out)
        return val

    def bind_returned(self, val, st, nf):
        """functions made anew in every pass of a loop keep its values"""
        clos = [c for c in self.find_clo(val)
                if self.closures[c.args[0]][1] is nf]
        if not clos or not any(
                self.deref(v, st).flags & (T.F_BVAR | T.F_MU)
                for v in st.envs[nf.fid].values()):
            return val
        for c in clos:
            node = self.closures[c.args[0]][0].node
            for x in ast.walk(node):
                if isinstance(x, ast.Nonlocal):
                    return val
                if isinstance(x, ast.Name) and not self.settled(
                        x.id, st, nf):
                    return val
        return T.subst(val, {c: self.lam(c, st, nf) for c in clos})

    def settled(self, name, st, fr):
        """the variable of an enclosing function does not change again"""
        p = fr.parent
        if name in st.envs.get(fr.fid, {}):
            return True
        while p is not None:
            if name in st.envs.get(p.fid, {}):
                n = sum(isinstance(x, ast.Name) and x.id == name and
                        not isinstance(x.ctx, ast.Load)
                        for x in ast.walk(p.func.node))
                return n <= 1 and not self.deref(
                    st.envs[p.fid][name], st).flags & (T.F_BVAR | T.F_MU)
            p = p.parent
        return True

    def bind_env_closure(self, f, args, kw, st):
        func, cfr = self.closures[f.args[0]]
        a = func.node.args
        env = self.bind_env(func, args, kw, st)
        pos = [p.arg for p in a.posonlyargs + a.args]
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            j = i - (len(pos) - nd)
            if j >= 0 and (env[p].op in ('default', 'undef') or
                           i >= len(args) and p not in kw):
                env[p] = f.args[1 + j]
        for i, p in enumerate(a.kwonlyargs):
            if p.arg not in kw and a.kw_defaults[i] is not None:
                env[p.arg] = f.args[1 + nd + i]
        return env

    def close_value(self, n, st, fr):
        """replace closures inside a value by canonical lambda terms"""
        if not self.has_clo(n):
            return n
        m = {}
        for c in self.find_clo(n):
            m[c] = self.lam(c, st, fr)
        return T.subst(n, m)

    def has_clo(self, n):
        return bool(self.find_clo(n))

    _clo_memo = {}

    def find_clo(self, n):
        r = self._clo_memo.get(n)
        if r is None:
            if n.op == 'clo':
                r = (n,)
            else:
                s = []
                for c in T._iter_nodes(n.args):
                    for x in self.find_clo(c):
                        if x not in s:
                            s.append(x)
                r = tuple(s)
            self._clo_memo[n] = r
        return r

    def lam(self, c, st, fr):
        func, cfr = self.closures[c.args[0]]
        key = ('lam', func.qual, func.line, id(func.node))
        if key in self.stack or len(self.stack) > self.MAX_DEPTH:
            return N('reclam', func.name)
        s = st.copy()
        s.pc = TRUE
        s.dead = False
        if cfr.fid not in s.envs:
            s.envs[cfr.fid] = {}
        nf = Frame(func, cfr.module, cfr.cls, cfr, func.qual)
        env = s.envs[nf.fid] = {}
        a = func.node.args
        pos = a.posonlyargs + a.args + a.kwonlyargs
        ph = []
        dfl = []
        nd = len(a.defaults)
        npos = len(a.posonlyargs + a.args)
        for i, p in enumerate(pos):
            j = i - (npos - nd)
            if j >= 0 and c.args[1 + j] is not UNDEF:
                d = (a.defaults + a.kw_defaults)[j]
                dv = self.deref(c.args[1 + j], s)
                if not T.is_const(dv) and not isinstance(
                        d, (ast.Constant, ast.List, ast.Dict, ast.Tuple)):
                    # lambda x=x: the value at the time of definition
                    env[p.arg] = c.args[1 + j]
                    continue
                if j < nd:
                    dfl.append(dv)
            v = N('bvar', uid())
            ph.append(v)
            env[p.arg] = v
        for v in (a.vararg, a.kwarg):
            if v:
                x = N('bvar', uid())
                ph.append(x)
                env[v.arg] = x
        ev0, ra0 = self.events, self.raises
        self.events, self.raises = [], []
        self.stack.append(key)
        try:
            if isinstance(func.node, ast.Lambda):
                ret = self.deref(self.ev(func.node.body, s, nf), s)
                out = s
            else:
                end = self.run_body(func.node.body, s, nf)
                ret, out = self.finish_frame(nf, end, TRUE)
                ret = self.deref(ret, out)
            evs = []
            for e in self.events:
                evs.append((self.dg(e.guard, out),
                            self.deref(e.node, out)))
            for loc, g in out.sguard.items():
                if loc in st.sguard and st.sguard[loc] is g:
                    continue
                evs.append((self.dg(g, out), N('store', self.deref(
                    loc, out), self.deref(out.stores.get(loc, loc), out))))
            rs = FALSE
            for g in self.raises:
                rs = b_or(rs, self.dg(g, out))
        finally:
            self.events, self.raises = ev0, ra0
            self.stack.pop()
        ret = self.close_value(ret, out, nf)
        evs = tuple((g, self.close_value(x, out, nf)) for g, x in evs)
        h = 1 + max([x.height for x in [ret, rs] + dfl +
                     [y for t in evs for y in t]] + [0])
        m = {p: N('lv', h, i) for i, p in enumerate(ph)}
        memo = {}
        return N('lam', h, len(ph), tuple(dfl), T.subst(ret, m, memo),
                 T.subst(rs, m, memo),
                 tuple((T.subst(g, m, memo), T.subst(x, m, memo))
                       for g, x in evs))

    # opaque calls ---------------------------------------------------------
    def opaque_pkg(self, func, recv, fnode, args, kw, dstar, st, stmt):
        a = [self.deref(x, st) for x in args]
        k = {n: self.deref(v, st) for n, v in kw.items()}
        full = ([recv] if recv is not None else []) + a
        if recv is None and func.cls is not None and not func.is_static \
                and not func.is_classmethod:
            pass
        if func.is_static:
            full = a
        if func.is_classmethod and recv is None:
            full = [N('glob', func.cls.qual)] + a
        full, k = self.bind_canonical(func, full, k, dstar)
        impure = stmt or self.effects.impure.get(func.name, True)
        if func.is_generator or func.name in self.effects.generators:
            impure = stmt
        off = 1 if (func.cls is not None and not func.is_static) else 0
        raw = {i + off: v for i, v in enumerate(args)}
        pos = [p.arg for p in func.node.args.posonlyargs +
               func.node.args.args]
        for nm, v in kw.items():
            if nm in pos:
                raw[pos.index(nm)] = v
        return self.opaque_node(fnode, full, k, dstar, st, impure,
                                func.name, raw, func)

    def opaque(self, f, args, kw, dstar, st, stmt, impure, name):
        a = [self.deref(x, st) for x in args]
        k = {n: self.deref(v, st) for n, v in kw.items()}
        return self.opaque_node(self.deref(f, st), a, k, dstar, st, impure,
                                name, args)

    def opaque_node(self, f, a, k, dstar, st, impure, name, raw=None,
                    func=None):
        fr = None
        a = [self.close_value(x, st, fr) for x in a]
        k = {n: self.close_value(v, st, fr) for n, v in k.items()}
        f = self.close_value(f, st, fr)
        n = T.call(f, a, self.kwt(k, dstar))
        # an object under construction which the callee is not given
        private = self.stack and str(self.stack[0]).endswith('.__init__') \
            and not T.mentions(n, N('param', 0))
        if name is not None and st.stores and self.effects is not None:
            rd = self.effects.reads.get(name, ())
            ctx = []
            for loc, v in st.stores.items():
                if private and root_of(loc) is N('param', 0):
                    continue
                if loc.op == 'attr' and loc.args[1] in rd and \
                        v is not loc:
                    ctx.append((loc, self.deref(v, st)))
            if ctx:
                ctx.sort(key=lambda t: t[0].id)
                n = N('ctxcall', n, tuple(ctx))
        if impure:
            c = st.counts.get(n, 0)
            st.counts[n] = c + 1
            if c:
                n = N('occ', n, c)
            self.emit(st, n)
            if name is not None and self.effects is not None:
                wr = self.effects.writes.get(name, ())
                for loc in list(st.stores):
                    if private and root_of(loc) is N('param', 0):
                        continue
                    if loc.op == 'attr' and loc.args[1] in wr:
                        if loc in st.sguard:
                            self.emit(st, N('store', loc, self.deref(
                                st.stores[loc], st)))
                            del st.sguard[loc]
                        st.stores[loc] = N('after', n, loc.args[1])
                for loc in list(st.stores):
                    if loc.op == 'item' and any(
                            x.op == 'attr' and x.args[1] in wr
                            for x in chain(loc)):
                        if loc in st.sguard:
                            self.emit(st, N('store', loc, self.deref(
                                st.stores[loc], st)))
                            del st.sguard[loc]
                        del st.stores[loc]
        # package functions mutating local objects passed to them
        if func is not None and raw is not None:
            mut = self.effects.mutates.get(func.qual, ())
            for i in mut:
                if i in raw and raw[i].op == 'ref':
                    st.heap[raw[i]] = N('after', n, i)
        return n

    # methods ----------------------------------------------------------------
    def call_method(self, recv, meth, args, kw, dstar, st, fr, stmt, e):
        # super().x()
        if recv.op == 'super':
            cls = fr.cls or self.root_cls
            if cls is not None:
                for c in self.repo.mro(cls)[1:]:
                    if meth in c.methods:
                        m = c.methods[meth]
                        if self.should_inline_method(cls, meth, m) and \
                                self.can_inline(m):
                            return self.inline(m, [N('param', 0)] + args, kw,
                                               st, fr, cls, dstar)
                        break
            f = N('meth', 'super.' + meth)
            return self.opaque(f, args, kw, dstar, st, stmt, True, meth)
        content = self.deref_shallow(recv, st)
        # local containers
        if recv.op == 'ref' and meth in MUTATORS and not dstar:
            r = self.mutate(recv, meth, args, kw, st, fr)
            if r is not None:
                return r
        if recv.op == 'ite' and recv.flags & T.F_REF and meth in (
                'append', 'extend', 'update', 'add'):
            handled = self.mutate_ite(recv, meth, args, kw, st, fr)
            if handled is not None:
                return handled
        recv = self.deref(recv, st)
        if recv.op == 'call' and recv.args[0] is N(
                'ext', 'logging.getLogger'):
            return NONE
        a = [self.deref(x, st) for x in args]
        if recv.op == 'str' or recv.op == 'fmt' or T._stry(recv):
            if meth == 'format':
                r = self.str_format(recv, a, {
                    n: self.deref(v, st) for n, v in kw.items()})
                if r is not None:
                    return r
        if meth in ('keys', 'items', 'values') and not args and not kw:
            if meth == 'keys' and recv.op == 'dict':
                return N('call', N('ext', 'keys'), (recv,), ())
            return N('call', N('ext', meth), (recv,), ())
        if meth == 'copy' and not args and not kw:
            return self.copy_of(recv, st)
        if meth == 'get' and 1 <= len(args) <= 2 and not kw and not dstar \
                and 'cache' not in T.show(recv) and not (
                    self.is_self(recv, fr) and self.repo.find_method(
                        self.self_class(fr), meth)):
            dflt = a[1] if len(a) > 1 else NONE
            return ite(T.contains(recv, a[0]), item(recv, a[0]), dflt)
        # package methods on self
        cls = None
        if self.is_self(recv, fr):
            cls = self.self_class(fr)
        if cls is not None:
            m = self.repo.find_method(cls, meth)
            if m is not None and not m.is_property:
                if self.should_inline_method(cls, meth, m) and \
                        self.can_inline(m):
                    aa = args if m.is_static else [recv] + args
                    return self.inline(m, aa, kw, st, fr, cls, dstar)
                return self.opaque_pkg(m, None if m.is_static else recv,
                                       N('meth', meth), args, kw, dstar, st,
                                       stmt)
        # object of a new helper kind or unknown receiver
        m = self.unique_method(meth)
        if m is None and args and not any(x.op == 'star' for x in args):
            names = self.common_names(meth, kw)
            if len(args) <= len(names) and not any(
                    n in kw for n in names[:len(args)]):
                kw = dict(zip(names, args), **kw)
                args = []
        name = meth if meth in self.effects.impure else None
        if meth in NP_METHODS and name is None and not dstar:
            return self.call_ext('numpy.' + meth, [recv] + args, kw, dstar,
                                 st, fr, stmt, e)
        if m is not None:
            return self.opaque_pkg(m, recv, N('meth', meth), args, kw, dstar,
                                   st, stmt)
        if meth == 'extend' and len(a) == 1 and not kw and not dstar:
            self.extend(recv, a[0], st)
            return NONE
        if meth == 'update' and not dstar and recv.op in ('attr', 'item') and (
                kw and not a or len(a) == 1 and
                a[0].op == 'dict' and a[0].args[0] and all(
                    k.op == 'str' for k, _ in a[0].args[0])):
            entries = list(self.deref_shallow(args[0], st).args[0]) if a \
                else []
            entries += [(const(k), v) for k, v in kw.items()]
            for k, v in entries:
                self.store_item_v(e.func.value, recv, k, v, st, fr)
            return NONE
        if meth == 'setdefault' and len(a) == 2 and not kw and not dstar:
            has = T.contains(recv, a[0])
            v = args[1]
            if v.op != 'ref' and self.promotable(v):
                v = self.new_ref(st, v)
            s2 = st.copy()
            s2.pc = b_and(st.pc, b_not(has))
            loc = item(recv, a[0])
            if T.is_const(a[0]) and loc.op == 'item':
                v = ite(has, st.stores.get(loc, loc), v)
                if s2.pc is not FALSE:
                    st.stores[loc] = v
                    st.sguard[loc] = b_or(st.sguard.get(loc, FALSE), s2.pc)
                return v
            if s2.pc is not FALSE:
                self.emit(s2, N('setitem', recv, a[0], v))
            return ite(has, item(recv, a[0]), v)
        if meth == 'pop' and len(a) == 1 and not kw and not dstar and \
                a[0].op == 'str':
            # taking an entry out of a dictionary: its value, then del
            loc = item(recv, a[0])
            v = loc
            if loc in st.stores:
                v = st.stores.pop(loc)
                if loc in st.sguard:
                    self.emit(st, N('store', loc, self.deref(v, st)))
                    del st.sguard[loc]
            self.emit(st, N('delitem', recv, a[0]))
            return v
        if meth in ('startswith', 'endswith') and len(a) == 1 and \
                not kw and not (
                    recv.op == 'attr' and recv.args[1] == 'str'):
            ps = a[0].args if a[0].op == 'seq' else a
            if all(p.op == 'str' and p.args[0] for p in ps):
                r = FALSE
                for p in ps:
                    n = T.num(len(p.args[0]))
                    r = b_or(r, T.eq(item(recv, N(
                        'slice', NONE, n, NONE) if meth == 'startswith'
                        else N('slice', T.neg(n), NONE, NONE)), p))
                return bval(r)
        if meth in ('rpartition', 'partition') and len(a) == 1 and \
                not kw and not dstar and a[0].op == 'str' and a[0].args[0]:
            parts = N('call', N('meth', 'split'), (recv, a[0]), ())
            one = bval(T.eq(T.length(parts), ONE))
            first = item(parts, ZERO), N('slice', ONE, NONE, NONE)
            last = item(parts, num(-1)), N('slice', NONE, num(-1), NONE)
            x, rest = last if meth == 'rpartition' else first
            rest = N('call', N('meth', 'join'), (a[0], item(parts, rest)), ())
            out = [x, ite(one, T.const(''), a[0]), rest]
            return seq(out[::-1] if meth == 'rpartition' else out)
        sig = SIGS.get('numpy.random.' + meth)
        if sig and not dstar and len(args) <= len(sig) and \
                not any(x.op == 'star' for x in args):
            kw = dict(kw)
            for i, x in enumerate(args):
                if i and sig[i] not in kw:
                    kw[sig[i]] = x
            args = args[:1] or [kw.pop(sig[0])] if args or sig[0] in kw \
                else []
        impure = stmt or meth in IMPURE_METHODS or (
            meth == 'get' and not args) or (
            name is not None and self.effects.impure[name]
            and meth not in self.effects.generators)
        return self.opaque(N('meth', meth), [recv] + args, kw, dstar, st,
                           stmt, impure, name)

    def extend(self, recv, v, st):
        """the elements of v appended to the list recv"""
        if v.op == 'seq':
            for x in v.args:
                self.emit(st, T.call(N('meth', 'append'), [recv, x], ()))
        elif v.op == 'cat':
            for p in v.args:
                self.extend(recv, p, st)
        elif v.op == 'ite' and (T._listy(v.args[1]) or T._listy(v.args[2])):
            for c, x in ((v.args[0], v.args[1]),
                         (b_not(v.args[0]), v.args[2])):
                s2 = st.copy()
                s2.pc = b_and(st.pc, c)
                if s2.pc is not FALSE:
                    self.extend(recv, x, s2)
        else:
            self.emit(st, self.extension(recv, v, st))

    def extension(self, recv, v, st):
        b = N('bvar', uid())
        if v.op == 'Flat' and v.args[2].op == 'Flat':
            dom, g = v.args[1], None
            n = self.extension(recv, T.subst(v.args[2], {
                N('bv', v.args[0]): b}), st)
        else:
            dom, elem, g = self.iter_domain(v, st)
            n = T.call(N('meth', 'append'), [recv, elem(b)], ())
        g = TRUE if g is None else to_bool(g(b))
        h = 1 + max(n.height, dom.height, g.height)
        m = {b: N('bv', h)}
        return T.rebind(N('foreach', h, dom, T.subst(g, m), T.subst(n, m)))

    _um = None

    def unique_method(self, name):
        """the only package method with this name (by signature)"""
        if self._um is None:
            self._um = {}
            for f in self.repo.all_functions():
                if f.cls is not None and not f.is_setter:
                    self._um.setdefault(f.name, []).append(f)
        fs = self._um.get(name)
        if not fs or name in IMPURE_METHODS - {'load'} or name in (
                'get', 'call', 'items', '__call__'):
            return None
        sig = {ast.dump(f.node.args) for f in fs}
        if len(sig) == 1:
            return fs[0]
        return None

    def common_names(self, name, kw):
        """names of the first parameters, where all methods agree"""
        fs = [f for f in (self._um or {}).get(name, ()) if set(kw) <= {
            p.arg for p in f.node.args.args + f.node.args.kwonlyargs}]
        if len(fs) < 2 or name in IMPURE_METHODS or name in NP_METHODS or \
                name in ('get', 'call', 'items', '__call__'):
            return ()
        out = []
        for ps in zip(*[[p.arg for p in f.node.args.args] for f in fs]):
            if len(set(ps)) > 1:
                break
            out.append(ps[0])
        if any(f.node.args.posonlyargs for f in fs) or out[:1] != ['self']:
            return ()
        return out[1:]

    def copy_of(self, x, st):
        if x.op in ('seq', 'cat', 'dict', 'dupd', 'Flat', 'DictC'):
            return self.new_ref(st, x)
        return self.new_ref(st, N('call', N('ext', 'copy'), (x,), ()))

    def mutate(self, ref, meth, args, kw, st, fr):
        c = st.heap[ref]
        if meth == 'append' and len(args) == 1 and not kw:
            st.heap[ref] = T.cat([c, seq([self.fix_clo(args[0], st, fr)])])
            return NONE
        if meth == 'extend' and len(args) == 1 and not kw:
            v = self.deref_shallow(args[0], st)
            if not T._listy(v):
                v = N('call', N('ext', 'list'), (self.deref(v, st),), ())
            st.heap[ref] = T.cat([c, v])
            return NONE
        if meth == 'update' and T.setty(c) and not kw:
            d = self.deref(c, st)
            for a in args:
                d = T.set_op('BitOr', d, T.as_set(self.deref(a, st)))
            st.heap[ref] = d
            return NONE
        if meth == 'update':
            d = c
            for a in args:
                d = self.upd_merge(d, self.deref_shallow(a, st))
            for n, v in kw.items():
                d = T.dict_set(d, const(n), v)
            st.heap[ref] = d
            return NONE
        if meth == 'setdefault' and args:
            k = self.deref(args[0], st)
            dv = args[1] if len(args) > 1 else NONE
            has = T.contains(c, k)
            old = item(c, k)
            st.heap[ref] = ite(has, c, T.dict_set(c, k, dv))
            return ite(has, old, dv) if has is not FALSE else dv
        if meth == 'pop' and len(args) >= 1 and (c.op in (
                'dict', 'dupd', 'DictC', 'dmerge', 'ddel') or
                args[0].op == 'str'):
            k = self.deref(args[0], st)
            v = item(c, k)
            if len(args) > 1:
                v = ite(T.contains(c, k), v, args[1])
            st.heap[ref] = self.ddel(c, k)
            return v
        if meth == 'sort':
            k = {n: self.deref(v, st) for n, v in kw.items()}
            k = {n: self.close_value(v, st, fr) for n, v in k.items()}
            st.heap[ref] = N('call', N('ext', 'sorted'),
                             (self.deref(c, st),), self.kwt(k, ()))
            return NONE
        if meth == 'add' and len(args) == 1:
            c, v = self.deref(c, st), self.deref(args[0], st)
            st.heap[ref] = T.set_op('BitOr', c, N('setlit', v)) \
                if T.setty(c) else N('setadd', c, v)
            return NONE
        if meth == 'clear':
            st.heap[ref] = T.EMPTYD if c.op in ('dict', 'dupd') else T.EMPTY
            return NONE
        if meth in ('insert', 'remove', 'pop', 'reverse', 'discard',
                    'popitem'):
            a = tuple(self.deref(x, st) for x in args)
            cc = self.deref(c, st)
            if meth == 'pop' and not a and cc.op == 'seq' and cc.args:
                st.heap[ref] = seq(cc.args[:-1])
                return cc.args[-1]
            if meth == 'insert' and len(a) == 2 and a[0] is ZERO and \
                    T._listy(cc):
                st.heap[ref] = T.cat([seq([a[1]]), cc])
                return NONE
            n = N('lmut', meth, cc, *a)
            st.heap[ref] = n
            return N('lres', n)
        return None

    def fix_clo(self, v, st, fr):
        return v

    def upd_merge(self, d, o):
        if o.op == 'ite':
            return ite(o.args[0], self.upd_merge(d, o.args[1]),
                       self.upd_merge(d, o.args[2]))
        if o.op == 'call' and o.args[0].op == 'ext' and o.args[0].args[0] \
                in ('copy', 'dict', 'deepcopy') and len(o.args[1]) == 1 and \
                o.args[0].args[0] != 'deepcopy':
            o = o.args[1][0]
        if o.op == 'dict' and d.op not in ('dict', 'dupd'):
            for k, v in o.args[0]:
                d = self.upd(d, k, v)
            return d
        if o.op == 'dupd' and o.args[0].op in ('dict', 'dupd'):
            return self.upd(self.upd_merge(d, o.args[0]), *o.args[1:])
        return T.dict_merge(d, o)

    def mutate_ite(self, recv, meth, args, kw, st, fr):
        parts = []

        def go(n, g):
            if n.op == 'ite':
                go(n.args[1], b_and(g, n.args[0]))
                go(n.args[2], b_and(g, b_not(n.args[0])))
            else:
                parts.append((n, g))
        go(recv, TRUE)
        for n, g in parts:
            if n.op == 'ref':
                old = st.heap[n]
                self.mutate(n, meth, args, kw, st, fr)
                st.heap[n] = ite(g, st.heap[n], old)
            else:
                s2 = st.copy()
                s2.pc = b_and(st.pc, g)
                if s2.pc is not FALSE and n is not NONE:
                    self.emit(s2, T.call(
                        N('meth', meth), [self.deref(n, st)] + [
                            self.deref(x, st) for x in args], ()))
        return NONE

    def str_format(self, s, args, kw):
        if s.op == 'fmt' and not all(p.op == 'str' for p in s.args):
            return None
        if s.op == 'ite':
            a = self.str_format(s.args[1], args, kw)
            b = self.str_format(s.args[2], args, kw)
            if a is None or b is None:
                return None
            return ite(s.args[0], a, b)
        if s.op != 'str':
            return None
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(
                    s.args[0]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                parts.append(self.fmt_part(v, spec or '', conv or ''))
        except (ValueError, IndexError):
            return None
        return T.fmt(parts)

    # externals ------------------------------------------------------------
    def call_ext(self, name, args, kw, dstar, st, fr, stmt, e):
        if name.startswith('undefined:') or name.startswith('missing:'):
            return self.opaque(N('ext', name), args, kw, dstar, st, stmt,
                               stmt, None)
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None and not dstar and not any(
                x.op == 'star' for x in args):
            r = h(args, kw, st, fr)
            if r is not None:
                return r
        base = name.rpartition('.')[2]
        pre = name.partition('.')[0]
        if pre in ('numpy', 'tensorflow', 'math', 'operator') and not dstar:
            a = [self.deref(x, st) for x in args]
            if base in ARITH2 and len(a) == 2 and not kw and \
                    name.count('.') == 1:
                return ARITH2[base](*a)
            if base == 'square' and len(a) == 1:
                return T.power(a[0], 2)
            if base == 'sqrt' and len(a) == 1 and not kw:
                return T.power(a[0], Fraction(1, 2))
            if base in ('negative', 'neg') and len(a) == 1:
                return T.neg(a[0])
            if base == 'reciprocal' and len(a) == 1:
                return T.power(a[0], -1)
        a = [self.deref(x, st) for x in args]
        k = {n: self.deref(v, st) for n, v in kw.items()}
        sig = SIGS.get(name)
        if sig and not any(x.op == 'star' for x in a) and \
                len(a) <= len(sig):
            for i, x in enumerate(a[1:], 1):
                if sig[i] not in k:
                    k[sig[i]] = x
            if not a and sig[0] in k:
                a = [k.pop(sig[0])]
            a = a[:1]
            for n in list(k):
                dv = SIG_DEFAULTS.get((name, n))
                if dv is not None and k[n] is dv:
                    del k[n]
        # in-place helpers acting on local arrays
        impure = stmt or impure_ext(name)
        n = self.opaque_node(N('ext', name), a, k, dstar, st, impure, None)
        if name in ('numpy.add.at', 'numpy.copyto', 'numpy.put',
                    'numpy.random.shuffle', 'numpy.fill_diagonal') and \
                e is not None and e.args:
            t = e.args[0]
            if isinstance(t, ast.Name):
                if args and args[0].op == 'ref':
                    st.heap[args[0]] = N('after', n, 0)
                else:
                    st.envs[fr.fid][t.id] = N('after', n, 0)
        if name in TREES:
            return self.new_ref(st, n)
        return n

    def bcast(self, f, args, st):
        return f(*[self.deref(x, st) for x in args])

    def x_len(self, args, kw, st, fr):
        if len(args) == 1:
            return size(self.deref(args[0], st))

    def x_range(self, args, kw, st, fr):
        return N('call', N('ext', 'range'), tuple(
            self.strip0([self.deref(x, st) for x in args])), ())

    def strip0(self, a):
        if len(a) == 3 and a[2] is ONE:
            a = a[:2]
        if len(a) == 2 and a[0] is ZERO:
            a = a[1:]
        return a

    def x_list(self, args, kw, st, fr):
        if not args:
            return self.new_ref(st, T.EMPTY)
        v = self.deref_shallow(args[0], st)
        if T._listy(v) and v.op not in ('call', 'ite'):
            return self.new_ref(st, v)
        if v.op == 'call' and v.args[0].op == 'ext' and \
                v.args[0].args[0] in ('sorted',) and not (
                    len(v.args[1]) == 1 and v.args[1][0].op == 'call' and
                    v.args[1][0].args[0] is N('ext', 'items')):
            return self.new_ref(st, v)
        v = self.deref(v, st)
        v = strip_keys(v)
        if v.op == 'ite' and any(
                x.op == 'dict' or T._listy(x) for x in v.args[1:]):
            x, y = [self.deref(self.x_list([x], {}, st, fr), st)
                    for x in v.args[1:]]
            return self.new_ref(st, ite(v.args[0], x, y))
        if v.op == 'dict' and all(T.is_const(k) for k, _ in v.args[0]):
            return self.new_ref(st, seq([k for k, _ in v.args[0]]))
        if v.op == 'lmut' and T._listy(lmut_base(v)):
            return self.new_ref(st, v)
        lits = self.literal_items(v, st) if v.op == 'call' else None
        if lits is not None:
            return self.new_ref(st, seq(lits))
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] \
                in ('zip', 'enumerate', 'map', 'items', 'values', 'sorted'):
            dom, elem, g = self.iter_domain(v, st)
            if g is None:
                b = N('bvar', uid())
                body = seq([elem(b)])
                h = 1 + max(body.height, dom.height)
                return self.new_ref(st, T.mk_flat(h, dom, T.subst(
                    body, {b: N('bv', h)})))
        return self.new_ref(st, T.new_list(v))

    def x_tuple(self, args, kw, st, fr):
        if not args:
            return T.EMPTY
        r = self.x_list(args, kw, st, fr)
        return st.heap[r]

    def x_dict(self, args, kw, st, fr):
        d = T.EMPTYD
        if args:
            v = self.deref_shallow(args[0], st)
            if v.op in ('dict', 'dupd', 'DictC', 'dmerge', 'ddel'):
                d = v
            elif v.op == 'seq' and all(
                    x.op == 'seq' and len(x.args) == 2 for x in v.args):
                for x in v.args:
                    d = T.dict_set(d, x.args[0], x.args[1])
            elif v.op == 'call' and v.args[0] in (
                    N('ext', 'zip'), N('ext', 'enumerate')):
                lits = self.literal_items(v, st)
                if lits is not None:
                    for x in lits:
                        d = T.dict_set(d, x.args[0], x.args[1])
                else:
                    dom, elem, g = self.iter_domain(v, st)
                    b = N('bvar', uid())
                    el = elem(b)
                    h = 1 + max(el.height, dom.height)
                    m = {b: N('bv', h)}
                    d = N('DictC', h, dom, T.EMPTYD, ((
                        T.subst(el.args[0], m), T.subst(el.args[1], m),
                        TRUE),))
            elif v.op == 'Flat' and v.args[2].op == 'seq' and \
                    len(v.args[2].args) == 1 and \
                    v.args[2].args[0].op == 'seq' and \
                    len(v.args[2].args[0].args) == 2:
                kv = v.args[2].args[0].args
                d = N('DictC', v.args[0], v.args[1], T.EMPTYD,
                      ((kv[0], kv[1], TRUE),))
            else:
                d = N('call', N('ext', 'copy'), (self.deref(v, st),), ())
        for n in kw:
            d = T.dict_set(d, const(n), kw[n])
        return self.new_ref(st, d)

    def x_set(self, args, kw, st, fr):
        if not args:
            return self.new_ref(st, N('setlit'))
        v = strip_keys(self.deref(args[0], st))
        if v.op == 'seq':
            return N('setlit', *sorted(set(v.args), key=lambda n: n.id))
        return N('call', N('ext', 'set'), (v,), ())

    def x_sorted(self, args, kw, st, fr):
        if len(args) == 1:
            v = strip_keys(self.deref(args[0], st))
            if v.op == 'call' and v.args[0] is N('ext', 'list'):
                v = v.args[1][0]
            if v.op == 'call' and v.args[0] is N('ext', 'items') and not kw:
                return self.x_list([N('call', N('ext', 'sorted'), (v,), ())],
                                   {}, st, fr)
            k = {n: self.close_value(self.deref(x, st), st, fr)
                 for n, x in kw.items()}
            return self.new_ref(st, N('call', N('ext', 'sorted'), (v,),
                                      self.kwt(k, ())))

    def x_sum(self, args, kw, st, fr):
        if len(args) != 1 or kw:
            return None
        v = self.deref(args[0], st)
        if v.op == 'ite' and (T._listy(v.args[1]) or T._listy(v.args[2])):
            x, y = [self.x_sum([x], kw, st, fr) for x in v.args[1:]]
            if x is not None and y is not None:
                return ite(v.args[0], x, y)
        if v.op == 'seq':
            r = ZERO
            for x in v.args:
                r = T.add(r, x)
            return r
        if v.op == 'Flat':
            h, dom, body = v.args
            s = sum_of(body)
            if s is not None:
                return T.mk_sum(h, dom, s)

    def x_any(self, args, kw, st, fr):
        if len(args) != 1:
            return None
        v = self.deref(args[0], st)
        if v.op == 'ite':
            a, b = [self.x_any([x], {}, st, fr) for x in v.args[1:]]
            return None if a is None or b is None else bval(T.b_ite(
                v.args[0], to_bool(a), to_bool(b)))
        if v.op == 'seq':
            r = FALSE
            for x in v.args:
                r = b_or(r, to_bool(x))
            return bval(r)
        if v.op == 'Flat':
            h, dom, body = v.args
            s = any_of(body)
            if s is not None:
                return bval(to_bool(T.mk_exists(h, dom, s)))

    def x_next(self, args, kw, st, fr):
        if len(args) != 2 or kw:
            return None
        v, default = [self.deref(x, st) for x in args]
        found = first_of(v)
        if found is None:
            return None
        c, x = found
        return default if c is FALSE else ite(c, x, default)

    def x_all(self, args, kw, st, fr):
        if len(args) != 1:
            return None
        v = self.deref(args[0], st)
        if v.op == 'ite':
            a, b = [self.x_all([x], {}, st, fr) for x in v.args[1:]]
            return None if a is None or b is None else bval(T.b_ite(
                v.args[0], to_bool(a), to_bool(b)))
        if v.op == 'seq':
            r = TRUE
            for x in v.args:
                r = b_and(r, to_bool(x))
            return bval(r)
        if v.op == 'Flat':
            h, dom, body = v.args
            s = any_of(body, negate=True)
            if s is not None:
                return bval(b_not(to_bool(T.mk_exists(h, dom, s))))

    def x_numpy_all(self, args, kw, st, fr):
        v = self.scalars(args, kw, st)
        return v and self.x_all([v], {}, st, fr)

    def x_numpy_any(self, args, kw, st, fr):
        v = self.scalars(args, kw, st)
        return v and self.x_any([v], {}, st, fr)

    def scalars(self, args, kw, st):
        """a list of comparisons"""
        if len(args) != 1 or kw:
            return None
        v = self.deref(args[0], st)
        body = v.args[2] if v.op == 'Flat' else v

        def ok(b):
            if b.op == 'ite':
                return ok(b.args[1]) and ok(b.args[2])
            return b.op == 'seq' and all(T.is_boolean(x) for x in b.args)
        return v if v.op in ('Flat', 'seq') and ok(body) else None

    def x_isinstance(self, args, kw, st, fr):
        a = [self.deref(x, st) for x in args]
        ts = a[1].args if a[1].op == 'seq' else (a[1],)
        r = FALSE
        def one(v, t):
            if v.op in ('seq', 'cat') and t is N('ext', 'dict') or \
                    v is NONE and t.op in ('ext', 'glob') and \
                    t.args[0] != 'object':
                return FALSE
            if v.op == 'ite' and NONE in v.args:
                return T.b_ite(v.args[0], one(v.args[1], t),
                               one(v.args[2], t))
            return T.batom(N('isinstance', v, t))

        for t in ts:
            r = b_or(r, one(a[0], t))
        return bval(r)

    def x_numpy_matmul(self, args, kw, st, fr):
        if len(args) != 2 or kw:
            return None
        return N('op', 'MatMult', *[self.deref(x, st) for x in args])

    def x_issubclass(self, args, kw, st, fr):
        v = self.deref(args[0], st) if len(args) == 2 else NONE
        if v.op == 'call' and v.args[0] is N('ext', 'type') and len(
                v.args[1]) == 1 and not kw:
            return self.x_isinstance([v.args[1][0], args[1]], kw, st, fr)
        return None

    def x_getattr(self, args, kw, st, fr):
        a = [self.deref(x, st) for x in args]
        if len(a) == 2:
            def go(n):
                if n.op == 'str' and n.args[0].isidentifier():
                    return self.get_attr(a[0], n.args[0], st, fr)
                if n.op == 'ite':
                    x, y = go(n.args[1]), go(n.args[2])
                    if x is not None and y is not None:
                        return self.ite_any(n.args[0], x, y)
                return n if n is UNDEF else None
            return go(a[1])
        if len(a) == 3 and not kw:
            has = to_bool(N('hasattr', a[0], a[1]))
            v = self.x_getattr(args[:2], {}, st, fr)
            if v is None:
                v = T.call(N('ext', 'getattr'), a[:2], ())
            return self.ite_any(has, v, args[2])
        return None

    def x_vars(self, args, kw, st, fr):
        if len(args) == 1 and not kw:
            return self.get_attr(
                self.deref(args[0], st), '__dict__', st, fr)

    def x_setattr(self, args, kw, st, fr):
        a = [self.deref(x, st) for x in args]
        if len(a) == 3 and a[1].op == 'str':
            self.store_attr(a[0], a[1].args[0], args[2], st)
            return NONE

    def x_hasattr(self, args, kw, st, fr):
        a = [self.deref(x, st) for x in args]
        return N('hasattr', *a)

    def x_str(self, args, kw, st, fr):
        if len(args) == 1:
            v = self.deref(args[0], st)
            if T._stry(v):
                return v
            return T.fmt([v])
        return None

    def x_bool(self, args, kw, st, fr):
        if len(args) == 1:
            return bval(to_bool(self.deref(args[0], st)))

    def x_float(self, args, kw, st, fr):
        if len(args) == 1:
            v = self.deref(args[0], st)
            if v.op == 'num':
                return v
            if v.op == 'str':
                return N('fconst', v.args[0].strip().lower())

    x_int = None

    def x_copy(self, args, kw, st, fr):
        if len(args) == 1 and not kw:
            return self.copy_of(self.deref(args[0], st), st)

    def x_deepcopy(self, args, kw, st, fr):
        if len(args) == 1:
            v = self.deref(args[0], st)
            return self.new_ref(st, N('call', N('ext', 'deepcopy'), (v,),
                                      ()))

    def x_map(self, args, kw, st, fr):
        if len(args) != 2:
            return None
        nm = '#m%d' % uid()
        st.envs[fr.fid][nm + 'f'] = args[0]
        st.envs[fr.fid][nm + 'i'] = self.deref(args[1], st)
        e = ast.parse('[F(X) for X in I]', mode='eval').body
        e = Renamer({'F': nm + 'f', 'I': nm + 'i', 'X': nm + 'x'}).visit(e)
        r = self.e_ListComp(e, st, fr)
        return self.deref(r, st)

    def x_filter(self, args, kw, st, fr):
        if len(args) != 2 or args[0] is NONE:
            return None
        nm = '#m%d' % uid()
        st.envs[fr.fid][nm + 'f'] = args[0]
        st.envs[fr.fid][nm + 'i'] = self.deref(args[1], st)
        e = ast.parse('[X for X in I if F(X)]', mode='eval').body
        e = Renamer({'F': nm + 'f', 'I': nm + 'i', 'X': nm + 'x'}).visit(e)
        r = self.e_ListComp(e, st, fr)
        return self.deref(r, st)

    def x_os_path_join(self, args, kw, st, fr):
        return T.path([self.deref(x, st) for x in args])

    def x_logical_and(self, args, kw, st, fr):
        if len(args) == 2 and not kw:
            a = [to_bool(self.deref(x, st)) for x in args]
            return bval(b_and(*a))

    def x_logical_or(self, args, kw, st, fr):
        if len(args) == 2 and not kw:
            a = [to_bool(self.deref(x, st)) for x in args]
            return bval(b_or(*a))

    def x_logical_not(self, args, kw, st, fr):
        if len(args) == 1 and not kw:
            return bval(b_not(to_bool(self.deref(args[0], st))))

    def _cmpx(op):
        def f(self, args, kw, st, fr):
            if len(args) == 2 and not kw:
                a = [self.deref(x, st) for x in args]
                return bval(self.cmp(op(), *a))
        return f
    x_less = _cmpx(ast.Lt)
    x_greater = _cmpx(ast.Gt)
    x_less_equal = _cmpx(ast.LtE)
    x_greater_equal = _cmpx(ast.GtE)
    x_equal = _cmpx(ast.Eq)
    x_not_equal = _cmpx(ast.NotEq)

    def x_where(self, args, kw, st, fr):
        k = {n: self.deref(v, st) for n, v in kw.items()}
        a = [self.deref(x, st) for x in args]
        for n in ('condition', 'x', 'y'):
            if n in k:
                a.append(k.pop(n))
        if len(a) == 3 and not k:
            c = a[0]
            if T.is_boolean(c):
                b = to_bool(c)
                if T._neg_lead(b):
                    return N('where', bval(b_not(b)), a[2], a[1])
            return N('where', *a)
        return N('call', N('ext', 'where'), tuple(a), self.kwt(k, ()))


_big = {}


def is_big(n):
    """a literal table, which is compared on its own"""
    r = _big.get(n)
    if r is None:
        k = 0
        for _ in ast.walk(n):
            k += 1
            if k > 600:
                break
        r = _big[n] = k > 600
    return r


class Renamer(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(id=self.m[n.id], ctx=n.ctx), n)
        return n


def chain(n):
    out = []
    while n.op in ('attr', 'item'):
        out.append(n)
        n = n.args[0]
    return out


def root_of(n):
    while n.op in ('attr', 'item'):
        n = n.args[0]
    return n


def lmut_base(n):
    while n.op == 'lmut':
        n = n.args[1]
    return n


def entry_keys(x):
    """the keys of an entry of a dictionary with entries of one kind"""
    if x.op != 'item' or x.args[0].op != 'DictC':
        return None
    h, dom, base, parts = x.args[0].args
    if base is not T.EMPTYD or len(parts) != 1 or parts[0][1].op != 'dict':
        return None
    keys = [k for k, _ in parts[0][1].args[0]]
    return keys if all(k.op == 'str' for k in keys) else None


def strip_keys(v):
    while v.op == 'call' and v.args[0].op == 'ext' and \
            v.args[0].args[0] in ('keys', 'iter') and len(v.args[1]) == 1:
        v = v.args[1][0]
    return v


def size(v):
    if v.op == 'Flat':
        h, dom, body = v.args
        if body.op in ('ite', 'Flat'):
            return T.mk_sum(h, dom, len_of(body))
    if v.op == 'ite' and (T._listy(v.args[1]) or T._listy(v.args[2])):
        return ite(v.args[0], size(v.args[1]), size(v.args[2]))
    return T.length(v)


def len_of(body):
    if body.op == 'ite':
        return ite(body.args[0], len_of(body.args[1]), len_of(body.args[2]))
    return size(body) if body.op == 'Flat' else T.length(body)


def sum_of(body):
    if body.op == 'ite':
        a, b = sum_of(body.args[1]), sum_of(body.args[2])
        if a is None or b is None:
            return None
        return ite(body.args[0], a, b)
    if body.op == 'seq':
        r = ZERO
        for x in body.args:
            r = T.add(r, x)
        return r
    if body.op == 'Flat':
        s = sum_of(body.args[2])
        return None if s is None else T.mk_sum(body.args[0], body.args[1], s)
    return None


def any_of(body, negate=False):
    if body.op == 'ite':
        a, b = any_of(body.args[1], negate), any_of(body.args[2], negate)
        if a is None or b is None:
            return None
        return T.b_ite(body.args[0], a, b)
    if body.op == 'seq':
        r = FALSE
        for x in body.args:
            t = to_bool(x)
            r = b_or(r, b_not(t) if negate else t)
        return r
    if body.op == 'Flat':
        s = any_of(body.args[2], negate)
        if s is None:
            return None
        return to_bool(T.mk_exists(body.args[0], body.args[1], s))
    return None


def first_of(v):
    """(condition that there is an element, first element)"""
    if v.op == 'ite':
        a, b = first_of(v.args[1]), first_of(v.args[2])
        if a is None or b is None:
            return None
        c = T.b_ite(v.args[0], a[0], b[0])
        if a[1] is None or b[1] is None:
            return c, b[1] if a[1] is None else a[1]
        return c, ite(v.args[0], a[1], b[1])
    if v.op == 'seq':
        return (TRUE, v.args[0]) if v.args else (FALSE, None)
    if v.op == 'Flat':
        found = first_of(v.args[2])
        if found is None:
            return None
        c, x = found
        if x is None:
            return found
        h, dom = v.args[:2]
        return to_bool(T.mk_exists(h, dom, c)), T.rebind(
            N('firstret', h, dom, c, x))
    return None


# ----------------------------------------------------------- loop closing
def numbered(d):
    """(domain, value) of a dict whose keys are 0, 1, 2, ..."""
    if d.op == 'DictC' and d.args[2].op == 'dict' and not d.args[2].args[0] \
            and len(d.args[3]) == 1 and d.args[1].op == 'rng':
        b = N('bv', d.args[0])
        k, v, g = d.args[3][0]
        if k is b and g is TRUE:
            return d.args[1], lambda i: T.subst(v, {b: i})
    return None


def forced(f):
    """the atoms whose value follows from f"""
    out = {}
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.op != 'bite' or x in seen:
            continue
        seen.add(x)
        a = x.args[0]
        if a not in out:
            v = T.batom(a)
            if b_and(f, v) is FALSE:
                out[a] = False
            elif b_and(f, b_not(v)) is FALSE:
                out[a] = True
        todo.extend(x.args[1:])
    return out


def cofactors(n, lits):
    for a, v in lits.items():
        n = T.cofactor(n, a, v, {})
    return n


class LoopCloser(object):
    def __init__(self, ev, dom, bvar, mus, inits, steps):
        self.ev = ev
        self.dom0 = dom
        self.dom = dom
        self.bvar = bvar
        self.mus = mus
        self.key_of = {m: k for k, m in mus.items()}
        self.inits = inits
        self.steps = steps
        self._after = {}
        self._iter = {}
        self.busy = set()
        self.assume = {}
        self.B = FALSE
        self.R = FALSE
        self._deps = {}
        self._reach = {}
        self.exit_set = False

    # dependencies between carried values
    def mus_in(self, n):
        out = []
        if not n.flags & T.F_MU:
            return out
        seen = set()
        todo = [n]
        while todo:
            x = todo.pop()
            if x in seen or not x.flags & T.F_MU:
                continue
            seen.add(x)
            if x.op == 'mu':
                if x in self.key_of:
                    out.append(self.key_of[x])
            else:
                todo.extend(reversed(list(T._iter_nodes(x.args))))
        return out

    def deps(self, k):
        if k not in self._deps:
            self._deps[k] = self.mus_in(self.steps[k])
        return self._deps[k]

    def reach(self, k):
        if k not in self._reach:
            seen = []
            todo = [k]
            while todo:
                x = todo.pop()
                for d in self.deps(x):
                    if d not in seen:
                        seen.append(d)
                        todo.append(d)
            self._reach[k] = seen
        return self._reach[k]

    def prepare_while(self, cond):
        """turn 'while i < n: ...; i += 1' into a counted range"""
        # counters first
        c = cond
        m = {}
        for k in self.mus_in(c):
            v = self.counter(k)
            if v is not None:
                m[self.mus[k]] = v
        if m:
            c = to_bool(T.subst(c, m))
        bound = None
        if c.op == 'bite' and c.args[1] is TRUE and c.args[2] is FALSE and \
                c.args[0].op == 'lt':
            p, q = c.args[0].args
            if p is self.bvar and not T.mentions(q, self.bvar) and \
                    not self.mus_in(q):
                bound = q
            else:
                # canonical polynomial form: idx - n < c
                pp = T.to_poly(T.sub(p, q))
                mono = ((self.bvar, Fraction(1)),)
                if pp.get(mono) == 1:
                    rest = dict(pp)
                    del rest[mono]
                    r = T.neg(T.from_poly(rest))
                    if not T.mentions(r, self.bvar) and \
                            not self.mus_in(r):
                        bound = r
        if bound is not None:
            self.dom0 = self.dom = N('rng', bound)
            self.assume[c.args[0]] = True
            memo = {}
            for k in self.steps:
                self.steps[k] = self.simp(self.steps[k], m)
            self.pre = m
            self._deps = {}
            self._reach = {}
            self.wcond = None
        else:
            self.wcond = cond
        self.wm = m

    wcond = None
    wm = {}

    def simp(self, n, m=None):
        if self.wm or m:
            n = T.subst(n, m or self.wm)
        for a, v in self.assume.items():
            n = T.cofactor(n, a, v, {})
        return n

    def set_exit(self, B, R):
        if self.wcond is not None:
            B = b_or(B, b_not(self.wcond))
        B = to_bool(self.simp(B)) if self.assume else B
        R = to_bool(self.simp(R)) if self.assume else R
        self.B, self.R = B, R
        self.exit_set = True
        E = b_or(B, R)
        if E is not FALSE:
            # an iteration which is followed by another one did not end it
            self.steps_end = dict(self.steps)
            go = b_not(E)
            if self.wcond is not None:
                w = forced(self.wcond)
                for k, v in self.steps.items():
                    self.steps_end[k] = ite(
                        self.wcond, cofactors(v, w), self.mus[k])
            lits = forced(go)
            if lits:
                self.steps = {k: cofactors(v, lits)
                              for k, v in self.steps.items()}
                self._deps = {}
                self._reach = {}
                self._iter = {}
            body = self.sub_iter(E)
            self.dom = self.close('until', self.dom0, to_bool(body))

    def counter(self, k):
        """value at the start of iteration idx for simple counters"""
        m = self.mus[k]
        s = self.steps[k]
        d = self.delta(s, m)
        if d is None:
            return None
        if d.flags & T.F_MU or T.mentions(d, self.bvar):
            return None
        if d.op == 'ite':
            return None
        if T._listy(d) or T._listy(self.inits[k]) or \
                T._stry(self.inits[k]):
            return None
        return T.add(self.inits[k], T.mul(d, self.bvar))

    def delta(self, s, m):
        if s is m:
            return ZERO
        if s.op == 'poly':
            p = T.to_poly(s)
            mono = ((m, Fraction(1)),)
            if p.get(mono) == 1:
                q = dict(p)
                del q[mono]
                r = T.from_poly(q)
                if not T.mentions(r, m):
                    return r
            return None
        if s.op == 'ite':
            if T.mentions(s.args[0], m):
                return None
            a, b = self.delta(s.args[1], m), self.delta(s.args[2], m)
            if a is None or b is None:
                return None
            return ite(s.args[0], a, b)
        return None

    def ldelta(self, s, m):
        """list appended to m"""
        if s is m:
            return T.EMPTY
        if s.op == 'cat' and s.args[0] is m:
            r = T.cat(s.args[1:]) if len(s.args) > 2 else s.args[1]
            if r.op not in ('seq', 'cat') and not T._listy(r):
                r = N('cat', r)
            return None if T.mentions(r, m) else r
        if s.op == 'cat' and s.args[0].op == 'ite':
            c, a, b = s.args[0].args
            rest = list(s.args[1:])
            return self.ldelta(ite(c, T.cat([a] + rest), T.cat([b] + rest)),
                               m)
        if s.op == 'ite':
            if T.mentions(s.args[0], m):
                return None
            a, b = self.ldelta(s.args[1], m), self.ldelta(s.args[2], m)
            if a is None or b is None:
                return None
            return ite(s.args[0], a, b)
        return None

    def sdelta(self, s, m):
        """the elements added to a set, as a list"""
        if s is m:
            return T.EMPTY
        if s.op == 'ite' and not T.mentions(s.args[0], m):
            a, b = self.sdelta(s.args[1], m), self.sdelta(s.args[2], m)
            if a is not None and b is not None:
                return ite(s.args[0], a, b)
        if s.op == 'op' and s.args[0] == 'BitOr':
            x, y = s.args[1:]
            if T.mentions(y, m):
                x, y = y, x
            if T.mentions(y, m):
                return None
            d = self.sdelta(x, m)
            if d is not None:
                return T.cat([d, T.members(y)])
        return None

    def ddelta(self, s, m, op='dupd'):
        """list of (key, value, guard)"""
        if s is m:
            return []
        if s.op in ('dupd', 'aupd'):
            a = self.ddelta(s.args[0], m)
            if a is None or T.mentions(s.args[1], m) or \
                    T.mentions(s.args[2], m):
                return None
            return a + [(s.args[1], s.args[2], TRUE)]
        if s.op == 'ite':
            c = s.args[0]
            if T.mentions(c, m):
                return None
            a, b = self.ddelta(s.args[1], m), self.ddelta(s.args[2], m)
            if a is None or b is None:
                return None
            return [(k, v, b_and(c, g)) for k, v, g in a] + \
                [(k, v, b_and(b_not(c), g)) for k, v, g in b]
        return None

    def fuse(self, op, dom, parts):
        """index loops over a filtered list run over what it was made of"""
        if dom.op != 'rng' or op not in ('Flat', 'Sum', 'exists', 'foreach'):
            return None
        if dom.args[0].op not in ('Sum', 'len'):
            return None
        lists = set()
        todo = list(T._iter_nodes(parts))
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x is self.bvar:
                return None
            if x.op == 'item' and x.args[1] is self.bvar and \
                    x.args[0].op == 'Flat':
                lists.add(x.args[0])
                continue
            todo.extend(T._iter_nodes(x.args))
        if len(lists) != 1:
            return None
        L = lists.pop()
        if T.mentions(L, self.bvar) or size(L) is not dom.args[0]:
            return None
        d, elem, guard = self.ev.iter_domain(L, State())
        if guard is None:
            return None
        m = {item(L, self.bvar): elem(self.bvar)}
        g = guard(self.bvar)
        parts = [T.subst(x, m) for x in parts]
        if op == 'Flat':
            return d, [T.ite(g, parts[0], T.EMPTY)]
        if op == 'Sum':
            return d, [T.ite(g, parts[0], ZERO)]
        return d, [b_and(g, parts[0])] + parts[1:]

    def close(self, op, dom, *parts):
        r = self.fuse(op, dom, parts)
        if r is not None:
            dom, parts = r
        flat = []
        for p in parts:
            flat.extend(T._iter_nodes((p,)))
        h = 1 + max([x.height for x in flat] + [dom.height])
        m = {self.bvar: N('bv', h)}
        memo = {}
        new = T._subst_args(parts, m, memo)
        if op == 'Flat':
            return T.mk_flat(h, dom, *new)
        if op == 'Sum':
            return T.mk_sum(h, dom, *new)
        if op == 'exists':
            return T.mk_exists(h, dom, *new)
        return T.rebind(N(op, h, dom, *new))

    def sub_iter(self, n):
        """replace carried placeholders by their value in this iteration"""
        n = self.simp(n)
        ks = self.mus_in(n)
        if not ks:
            return n
        return T.subst(n, {self.mus[k]: self.iterv(k) for k in ks})

    def iterv(self, k):
        if k in self._iter:
            return self._iter[k]
        c = self.counter(k)
        if c is not None:
            r = c
        elif self.steps[k] is self.mus[k]:
            r = self.inits[k]
        else:
            r = N('iterv', self.carry(k))
        self._iter[k] = r
        return r

    def carry(self, k):
        """closed description of the carried value (independent of exits)"""
        if ('c', k) in self._after:
            return self._after[('c', k)]
        m = self.mus[k]
        s = self.steps[k]
        init = self.inits[k]
        r = None
        scc = [w for w in self.reach(k) if k in self.reach(w)]
        if s is m:
            r = init
        else:
            self_ok = all(w == k for w in scc)
            if self_ok:
                r = self.special(k, s, m, init, self.dom0)
            if r is None:
                r = self.fix(k, scc, self.dom0)
        self._after[('c', k)] = r
        return r

    def special(self, k, s, m, init, dom):
        if not T.mentions(s, m):
            body = self.sub_iter(s)
            return self.close('last', dom, body, init)
        is_bool = init in (TRUE, FALSE)
        if is_bool:
            b = to_bool(s)
            t = N('truth', m)
            f = T.cofactor(b, t, False, {})
            tr = T.cofactor(b, t, True, {})
            if not T.mentions(f, m) and not T.mentions(tr, m):
                if tr is TRUE:
                    ex = self.close('exists', dom, to_bool(
                        self.sub_iter(f)))
                    return bval(b_or(to_bool(init), to_bool(ex)))
                if f is FALSE:
                    ex = self.close('exists', dom, b_not(to_bool(
                        self.sub_iter(tr))))
                    return bval(b_and(to_bool(init), b_not(to_bool(ex))))
        if init is NONE and s.op == 'ite':
            r = self.joined(s, m, dom)
            if r is not None:
                return r
        if T._listy(init) or T._listy(s):
            d = self.ldelta(s, m)
            if d is not None:
                d = self.sub_iter(d)
                if d.op == 'cat' and len(d.args) == 1:
                    d = d.args[0]
                fl = self.close('Flat', dom, d)
                return T.cat([init, fl])
        if T.setty(init):
            d = self.sdelta(s, m)
            if d is not None:
                d = T._part(self.sub_iter(d))
                fl = self.close('Flat', dom, d)
                return T.set_op('BitOr', init, T.as_set(fl))
        d = self.delta(s, m)
        if d is not None and not T._listy(d):
            d = self.sub_iter(d)
            return T.add(init, self.close('Sum', dom, d))
        d = self.ddelta(s, m)
        if d is not None:
            d = tuple((self.sub_iter(a), self.sub_iter(b),
                       to_bool(self.sub_iter(g))) for a, b, g in d)
            merged = []
            for a, b, g in d:
                if merged and merged[-1][0] is a:
                    # the same entry, set in different branches
                    b = ite(g, b, merged[-1][1])
                    g = b_or(g, merged.pop()[2])
                merged.append((a, b, g))
            d = tuple((a, b if g is TRUE else cofactors(b, forced(g)), g)
                      for a, b, g in merged)
            if len(d) == 1 and d[0][2] is TRUE and dom.op == 'rng' and \
                    dom.args[0].op == 'len':
                o = dom.args[0].args[0]
                if d[0][0] is item(o, self.bvar) and \
                        d[0][1] is item(o, d[0][0]):
                    return T.dict_merge(init, o)
            return self.close('DictC', dom, init, d)
        return None

    def joined(self, s, m, dom):
        """a string of all elements with a separator in between"""
        c, x, y = s.args
        if c is b_not(to_bool(T.is_none(m))):
            x, y = y, x
        elif c is not to_bool(T.is_none(m)):
            return None
        if y.op != 'fmt' or len(y.args) < 3 or y.args[0] is not m or \
                y.args[1].op != 'str' or T.mentions(x, m):
            return None
        if T.add(T.add(m, y.args[1]), x) is not y and N(
                'fmt', m, y.args[1], x) is not y:
            return None
        x = self.sub_iter(x)
        d = N('call', N('meth', 'join'), (y.args[1], self.close(
            'Flat', dom, seq([x]))), ())
        return ite(to_bool(self.close('exists', dom, TRUE)), d, NONE)

    def fix(self, k, scc, dom, table=None):
        table = table or self.steps
        if k not in scc:
            scc = [k]
        order = []

        def visit(x):
            if x in order:
                return
            order.append(x)
            for d in self.mus_in(table[x]):
                if d in scc:
                    visit(d)
        visit(k)
        steps = []
        for x in order:
            s = self.simp(table[x])
            m = {}
            for w in self.mus_in(s):
                if w not in order:
                    m[self.mus[w]] = self.iterv(w)
            steps.append(T.subst(s, m) if m else s)
        h = 1 + max([x.height for x in steps] + [dom.height] +
                    [self.inits[x].height for x in order])
        m = {self.bvar: N('bv', h)}
        for i, x in enumerate(order):
            m[self.mus[x]] = N('mub', h, i)
        memo = {}
        return N('fix', h, dom, tuple(
            (self.inits[x], T.subst(s, m, memo))
            for x, s in zip(order, steps)))

    def after(self, k):
        if k in self._after:
            return self._after[k]
        m, s, init = self.mus[k], self.steps[k], self.inits[k]
        if self.dom is not self.dom0:
            s = self.steps_end[k]
        if s is m:
            r = init
        else:
            c = self.counter(k)
            if c is not None and self.dom is self.dom0 and \
                    self.dom.op == 'rng':
                r = T.subst(c, {self.bvar: self.dom.args[0]})
            elif self.dom is self.dom0:
                r = self.carry(k)
            else:
                keep = self.steps, self._deps, self._reach
                self.steps, self._deps, self._reach = self.steps_end, {}, {}
                scc = [w for w in self.reach(k) if k in self.reach(w)]
                steps = self.steps
                self.steps, self._deps, self._reach = keep
                r = None
                if all(w == k for w in scc):
                    r = self.special(k, s, m, init, self.dom)
                if r is None:
                    r = self.fix(k, scc, self.dom, steps)
        self._after[k] = r
        return r

    def last(self, v, cur, ev, st):
        v = self.sub_iter(v)
        if not T.mentions(v, self.bvar) and self.dom.op != 'until':
            if cur is UNDEF or cur is v:
                return v
        if self.dom.op == 'rng' and not v.flags & T.F_MU and \
                'iterv' not in T.show(v)[:0]:
            pass
        return self.close('last', self.dom, v,
                          ev.deref(cur, st) if cur is not UNDEF else UNDEF)

    def foreach(self, g, node):
        g = to_bool(self.sub_iter(g))
        if g is FALSE:
            return None
        node = self.sub_iter(node)
        if node.op == 'setitem' and g is TRUE and self.dom.op == 'rng' and \
                self.dom.args[0].op == 'len':
            # every entry of one dictionary set in another one
            d = self.dom.args[0].args[0]
            x, k, v = node.args
            if k is item(d, self.bvar) and v is item(d, k) and \
                    not T.mentions(x, self.bvar) and d.op in (
                        'param', 'attr', 'item'):
                return N('call', N('meth', 'update'), (x, d), ())
        return self.close('foreach', self.dom, g, node)

    def exists(self, b):
        return to_bool(self.close('exists', self.dom, to_bool(
            self.sub_iter(b))))

    def firstret(self, R, val):
        val = self.sub_iter(val)
        if not T.mentions(val, self.bvar) and not val.flags & T.F_MU and \
                T.is_const(val):
            return val
        return self.close('firstret', self.dom0, to_bool(
            self.sub_iter(b_or(self.R, self.B))), val)


# -------------------------------------------------------------- ast helpers
def value_cases(v, depth=2):
    """(condition, value) for a value chosen by conditions"""
    if v.op == 'ite' and depth:
        c, a, b = v.args
        return [(b_and(c, g), x) for g, x in value_cases(a, depth - 1)] + [
            (b_and(b_not(c), g), x) for g, x in value_cases(b, depth - 1)]
    return [(TRUE, v)]


def reads_file(v):
    """a file opened to be read"""
    if v.op != 'call' or v.args[0] is not N('ext', 'open'):
        return False
    mode = dict(v.args[2]).get(
        'mode', v.args[1][1] if len(v.args[1]) > 1 else const('r'))
    return mode.op == 'str' and set(mode.args[0]) <= set('rbtU')


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(
            value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(
            value=t.value, slice=t.slice, ctx=ast.Load()), t)
    raise Unsupported('aug target')


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and
            not isinstance(n.ctx, ast.Load)}


_rot = {}


def has_continue(stmts):
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.For, ast.While, ast.FunctionDef,
                                  ast.ClassDef)) and has_continue(
                                      getattr(s, f, None) or []):
                return True
            if isinstance(s, (ast.For, ast.While)) and f == 'orelse' and \
                    has_continue(s.orelse):
                return True
        for h in getattr(s, 'handlers', []):
            if has_continue(h.body):
                return True
    return False


def rotated(stmts):
    """loops which read ahead, or read up to an end mark, in one form

    x = next(); while x != end: ..; x = next()
    for x in iter(next, end): ..
    """
    if not any(isinstance(s, ast.While) or isinstance(s, ast.For) and
               isinstance(s.iter, ast.Call) for s in stmts):
        return stmts
    key = tuple(id(s) for s in stmts)
    if key in _rot:
        return _rot[key][1]
    out = []
    for s in stmts:
        if isinstance(s, ast.While) and not s.orelse and out and len(
                s.body) > 1 and isinstance(s.body[-1], ast.Assign) and \
                isinstance(out[-1], ast.Assign) and ast.dump(
                    s.body[-1]) == ast.dump(out[-1]) and not has_continue(
                        s.body) and isinstance(out[-1].value, ast.Call):
            n = ast.While(
                test=ast.Constant(value=True),
                body=[out.pop(), ast.If(
                    test=ast.UnaryOp(op=ast.Not(), operand=s.test),
                    body=[ast.Break()], orelse=[])] + s.body[:-1],
                orelse=[])
        elif isinstance(s, ast.For) and not s.orelse and isinstance(
                s.iter, ast.Call) and isinstance(
                    s.iter.func, ast.Name) and s.iter.func.id == 'iter' and \
                len(s.iter.args) == 2 and isinstance(s.target, ast.Name) and \
                not s.iter.keywords:
            end = s.iter.args[1]
            op = ast.Is() if isinstance(end, ast.Constant) and \
                end.value is None else ast.Eq()
            n = ast.While(
                test=ast.Constant(value=True),
                body=[ast.Assign(targets=[s.target], value=ast.Call(
                    func=s.iter.args[0], args=[], keywords=[])),
                    ast.If(test=ast.Compare(
                        left=ast.Name(id=s.target.id, ctx=ast.Load()),
                        ops=[op], comparators=[end]),
                        body=[ast.Break()], orelse=[])] + s.body,
                orelse=[])
        else:
            out.append(s)
            continue
        ast.copy_location(n, s)
        ast.fix_missing_locations(n)
        out.append(n)
    _rot[key] = (stmts, out)
    return out


_listed = {}


class _Yields(ast.NodeTransformer):
    """yield v  ->  $y.append(v)"""

    ok = True

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            v = n.value.value or ast.Constant(value=None)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom))
                   for x in ast.walk(v)):
                self.ok = False
            return ast.Expr(value=ast.Call(
                func=ast.Attribute(
                    value=ast.Name(id='$y', ctx=ast.Load()),
                    attr='append' if isinstance(n.value, ast.Yield)
                    else 'extend', ctx=ast.Load()),
                args=[v], keywords=[]))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.ok = False
        return n

    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        if n.value is not None:
            self.ok = False
        return ast.Return(value=ast.Name(id='$y', ctx=ast.Load()))

    def visit_While(self, n):
        self.ok = False
        return n

    visit_Try = visit_While


def listed(node, plain=False):
    """the body of a generator function which collects what it yields

    None if it cannot be read that way; plain: only if it visibly does
    nothing else.
    """
    key = (id(node), plain)
    if key in _listed:
        return _listed[key][1]
    t = _Yields()
    n = t.visit(ast.Module(body=copy.deepcopy(node.body), type_ignores=[]))
    body = [ast.Assign(targets=[ast.Name(id='$y', ctx=ast.Store())],
                       value=ast.List(elts=[], ctx=ast.Load()))] + n.body + [
        ast.Return(value=ast.Name(id='$y', ctx=ast.Load()))]
    if plain:
        for x in ast.walk(node):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                    not isinstance(x.ctx, ast.Load) or \
                    isinstance(x, ast.Expr) and not isinstance(
                        x.value, (ast.Yield, ast.YieldFrom, ast.Constant)):
                t.ok = False
    for x in body:
        ast.copy_location(x, node)
        ast.fix_missing_locations(x)
    _listed[key] = (node, body if t.ok else None)
    return _listed[key][1]


def _walk_scope(stmts):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def rebound_names(stmts):
    out = set()
    for n in _walk_scope(stmts):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    return out


def extended_names(stmts):
    """names which are only assigned to by +="""
    aug, other = set(), []
    for n in _walk_scope(stmts):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and \
                isinstance(n.target, ast.Name):
            aug.add(n.target.id)
            other.append(n.target)
    skip = set(map(id, other))
    return aug - {n.id for n in _walk_scope(stmts) if isinstance(
        n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in skip}


def assigned_names(stmts):
    out = rebound_names(stmts)
    for n in _walk_scope(stmts):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            r = n.value
            while isinstance(r, ast.Subscript):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.args and isinstance(n.args[0], ast.Name) and \
                dotted(n.func) in ('np.add.at', 'np.copyto',
                                   'np.random.shuffle'):
            out.add(n.args[0].id)
    return out
