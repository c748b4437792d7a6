"""Hash-consed value graph terms with algebraic normal forms.

Everything a function computes is represented by immutable, interned nodes, so
two expressions which normalise to the same form are the same object.  The
smart constructors below implement the (sound) identities the comparison is
allowed to use: ring laws, boolean laws (conditions are kept as ordered
decision diagrams), literal container access, string/path building, and the
usual views of loops (maps, sums, searches, counters).
"""
from fractions import Fraction
import math


class Node(object):
    __slots__ = ('op', 'args', 'id', 'height', 'flags', '_atoms')

    def __repr__(self):
        return show(self)


_table = {}
_nodes = []

F_REF = 1      # contains a heap reference
F_MU = 2       # contains a loop carried placeholder
F_BVAR = 4     # contains an open loop variable
F_ITE = 8      # contains a condition below or at this node
F_BV = 16      # contains a (closed) bound variable occurrence


def _iter_nodes(args):
    for a in args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            for b in _iter_nodes(a):
                yield b


BINDERS = {'Flat', 'Sum', 'exists', 'until', 'foreach', 'fix', 'last',
           'DictC', 'lam', 'firstret'}


def N(op, *args):
    key = (op, args)
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.id = len(_nodes)
    n._atoms = None
    fl = 0
    h = 0
    for c in _iter_nodes(args):
        fl |= c.flags
        if c.height > h:
            h = c.height
    if op == 'ref':
        fl |= F_REF
    elif op == 'mu':
        fl |= F_MU
    elif op == 'bvar':
        fl |= F_BVAR
    elif op == 'bv':
        fl |= F_BV
    elif op in ('ite', 'bite'):
        fl |= F_ITE
    if op in BINDERS:
        h = max(h, args[0])
    n.flags = fl
    n.height = h
    _table[key] = n
    _nodes.append(n)
    return n


TRUE = N('true')
FALSE = N('false')
NONE = N('none')
UNDEF = N('undef')


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, Fraction):
        return N('num', x)
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return N('num', Fraction(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return N('fconst', repr(x))
        return N('num', Fraction(repr(x)))
    if isinstance(x, complex):
        return N('fconst', repr(x))
    raise TypeError(x)


def const(x):
    if x is None:
        return NONE
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, str):
        return N('str', x)
    if isinstance(x, bytes):
        return N('bytes', x)
    if x is Ellipsis:
        return N('ellipsis')
    return num(x)


ZERO = num(0)
ONE = num(1)
CONST_OPS = {'num', 'str', 'true', 'false', 'none', 'bytes', 'fconst'}


def is_const(n):
    return n.op in CONST_OPS


# ------------------------------------------------------------- polynomials
def to_poly(n):
    """dict mono -> coef ; mono = tuple of (node, exp) sorted by node id."""
    if n.op == 'num':
        return {(): n.args[0]} if n.args[0] != 0 else {}
    if n.op == 'poly':
        return dict(n.args[0])
    return {((n, Fraction(1)),): Fraction(1)}


def from_poly(p):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (len(mc[0]), [(b.id, e) for b, e in mc[0]]))
    return N('poly', tuple(items))


def _mono_mul(a, b):
    d = {}
    for n, e in a:
        d[n] = d.get(n, 0) + e
    for n, e in b:
        d[n] = d.get(n, 0) + e
    return tuple(sorted(((n, e) for n, e in d.items() if e != 0),
                        key=lambda ne: ne[0].id))


LISTY = {'seq', 'cat', 'Flat', 'rep', 'slist'}
STRY = {'str', 'fmt', 'path'}


def _listy(n):
    if n.op in LISTY:
        return True
    if n.op == 'ite':
        return _listy(n.args[1]) or _listy(n.args[2])
    if n.op == 'call' and n.args[0].op == 'ext' and n.args[0].args[0] in (
            'list', 'tuple', 'sorted'):
        return True
    if n.op == 'attr' and n.args[1] == 'list':
        # the list of tensors of a DataTensorList
        return True
    return False


def _stry(n):
    if n.op in STRY:
        return True
    if n.op == 'ite':
        return _stry(n.args[1]) or _stry(n.args[2])
    return False


def add(a, b):
    if _listy(a) or _listy(b):
        return cat([a, b])
    if _stry(a) or _stry(b):
        return fmt([a, b])
    pa = to_poly(a)
    for m, c in to_poly(b).items():
        pa[m] = pa.get(m, 0) + c
    return from_poly(pa)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b)) if not _listy(a) else N('op', 'sub', a, b)


MAXEXP = 12


def mul(a, b):
    if _listy(a) or _listy(b):
        if _listy(b) and not _listy(a):
            a, b = b, a
        if a.op == 'seq' and not a.flags & F_REF and not any(
                _lit(x) for x in a.args):
            if b.op == 'num' and b.args[0].denominator == 1 and \
                    len(a.args) * b.args[0] <= 32:
                return seq(list(a.args) * max(0, int(b.args[0])))
            if not _listy(b):
                # [x] * n is [x for _ in range(n)]
                return mk_flat(1 + max(a.height, b.height),
                               N('rng', b), a)
        return N('rep', a, b)
    if _stry(a) or _stry(b):
        return N('rep', a, b)
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) <= MAXEXP or len(pa) == 1 or len(pb) == 1:
        r = {}
        for m1, c1 in pa.items():
            for m2, c2 in pb.items():
                m = _mono_mul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return renorm(r)
    return renorm({_mono_mul(((a, Fraction(1)),),
                             ((b, Fraction(1)),)): Fraction(1)})


def renorm(r):
    """Expand poly-valued bases with positive integer exponent if small."""
    changed = False
    out = {}
    for m, c in r.items():
        todo = [(b, e) for b, e in m if b.op in ('poly', 'num') and e == 1]
        if todo and (len(to_poly(todo[0][0])) <= MAXEXP):
            b = todo[0][0]
            rest = tuple((x, e) for x, e in m if x is not b)
            changed = True
            for m2, c2 in to_poly(b).items():
                mm = _mono_mul(rest, m2)
                out[mm] = out.get(mm, 0) + c * c2
        else:
            out[m] = out.get(m, 0) + c
    if changed and len(out) <= 4 * MAXEXP:
        return renorm(out)
    return from_poly(r if changed else out)


def _content(p):
    """split poly dict into (rational content, primitive poly node)."""
    items = sorted(p.items(), key=lambda mc: (len(mc[0]),
                                              [(b.id, e) for b, e in mc[0]]))
    lead = items[0][1]
    return lead, from_poly({m: c / lead for m, c in p.items()})


def _rat_pow(c, e):
    if e.denominator == 1:
        if c == 0 and e < 0:
            return None
        return Fraction(c) ** int(e)
    if e.denominator == 2 and c > 0:
        a = math.isqrt(c.numerator)
        b = math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Fraction(a, b) ** int(e.numerator)
    return None


def power(a, e):
    """a ** e with rational constant exponent."""
    e = Fraction(e)
    if e == 1:
        return a
    if e == 0:
        return ONE
    p = to_poly(a)
    if not p:
        return ZERO if e > 0 else N('op', 'pow', a, num(e))
    if len(p) == 1:
        (m, c), = p.items()
        integral = e.denominator == 1
        if integral or not m or all(
                True for _ in m):
            cp = _rat_pow(c, e)
            if cp is not None and (integral or len(m) <= 1):
                # (x^k)^e = x^(k e) only without sign trouble
                ok = integral or all(
                    (x[1] * e).denominator != 1 or x[1].denominator != 1
                    or x[1] == 1 for x in m)
                if ok:
                    return from_poly(
                        {tuple((x, k * e) for x, k in m): cp})
        return from_poly({((a, e),): Fraction(1)})
    if e.denominator == 1 and 1 < e <= 3 and len(p) ** int(e) <= 2 * MAXEXP:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    lead, prim = _content(p)
    cp = _rat_pow(lead, e)
    if cp is not None and lead != 1:
        if e.denominator == 1 or lead > 0:
            return from_poly({((prim, e),): cp})
    return from_poly({((a, e),): Fraction(1)})


def div(a, b):
    if b is ZERO:
        return N('op', 'div', a, b)
    if b.op == 'num':
        return mul(a, num(1 / b.args[0]))
    if a is b and False:
        return ONE
    return mul(a, power(b, -1))


def powr(a, b):
    if b.op == 'num' and abs(b.args[0]) <= 8:
        if a.op == 'num':
            cp = _rat_pow(a.args[0], b.args[0])
            if cp is not None:
                return num(cp)
        return power(a, b.args[0])
    if a.op == 'num' and b.op == 'num':
        return N('op', 'pow', a, b)
    return N('op', 'pow', a, b)


# -------------------------------------------------------------- containers
def seq(items):
    return N('seq', *items)


EMPTY = seq([])


def _part(p):
    """a piece of a concatenation: list(x) adds what x holds"""
    if p.op == 'ite':
        a, b = _part(p.args[1]), _part(p.args[2])
        if a is not p.args[1] or b is not p.args[2]:
            return ite(p.args[0], a, b)
        return p
    if p.op == 'cat' and len(p.args) == 1:
        return p.args[0]
    if p.op == 'call' and p.args[0].op == 'ext' and p.args[0].args[0] in (
            'list', 'tuple') and len(p.args[1]) == 1 and not p.args[2]:
        return _part(p.args[1][0])
    return p


def _pieces(x):
    if x.op == 'seq':
        return [seq([y]) for y in x.args]
    if x.op == 'cat':
        return [y for p in x.args for y in (
            _pieces(p) if p.op == 'seq' else [p])]
    return [x]


def _ite_cat(c, a, b):
    """c ? l + x : l  =  l + (c ? x : [])"""
    if not ('cat' in (a.op, b.op) or (
            a.op == b.op == 'seq' and len(a.args) != len(b.args))):
        return None
    pa, pb = _pieces(a), _pieces(b)
    n = 0
    while n < min(len(pa), len(pb)) and pa[n] is pb[n]:
        n += 1
    m = 0
    while m < min(len(pa), len(pb)) - n and pa[-1 - m] is pb[-1 - m]:
        m += 1
    if not n + m:
        return None
    return cat(pa[:n] + [ite(c, cat(pa[n:len(pa) - m]),
                             cat(pb[n:len(pb) - m]))] + pa[len(pa) - m:])


def cat(parts):
    out = []
    if len(parts) > 1:
        parts = [_part(p) for p in parts]
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'seq':
            if not p.args:
                continue
            if res and res[-1].op == 'seq':
                res[-1] = seq(res[-1].args + p.args)
                continue
        res.append(p)
    if not res:
        return EMPTY
    if len(res) == 1:
        p = res[0]
        if _listy(p) or p.op == 'call' and p.args[0] is N('ext', 'list'):
            return p
        return new_list(p)
    return N('cat', *res)


def new_list(x):
    """list(x)"""
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in (
            'glob.glob', 'os.listdir', 'sorted'):
        return x
    return N('call', N('ext', 'list'), (x,), ())


def fmt(parts):
    out = []
    for p in parts:
        if p.op == 'fmt':
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'num' and p.args[0].denominator == 1:
            p = N('str', str(p.args[0].numerator))
        if p.op == 'str':
            if p.args[0] == '':
                continue
            if res and res[-1].op == 'str':
                res[-1] = N('str', res[-1].args[0] + p.args[0])
                continue
        res.append(p)
    if not res:
        return N('str', '')
    if len(res) == 1 and res[0].op == 'str':
        return res[0]
    return N('fmt', *res)


def path(parts):
    out = []
    for p in parts:
        if p.op == 'path':
            out.extend(p.args)
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    return N('path', *out)


def mk_dict(pairs):
    """pairs of (key, value); later ones win."""
    d = {}
    for k, v in pairs:
        d[k] = v
    items = list(d.items())
    if all(is_const(k) for k, _ in items):
        items.sort(key=lambda kv: (kv[0].op, str(kv[0].args)))
        return N('dict', tuple(items))
    n = N('dict', ())
    cur = []
    for k, v in items:
        if is_const(k) and n.op == 'dict':
            cur.append((k, v))
            n = N('dict', tuple(sorted(
                cur, key=lambda kv: (kv[0].op, str(kv[0].args)))))
        else:
            n = N('dupd', n, k, v)
    return n


EMPTYD = N('dict', ())


def dict_set(d, k, v):
    if d.op == 'dict' and is_const(k) and all(
            is_const(x) for x, _ in d.args[0]):
        return mk_dict(list(d.args[0]) + [(k, v)])
    if d.op == 'dupd' and d.args[1] is k:
        return N('dupd', d.args[0], k, v)
    if d.op == 'ddel' and d.args[1] is k:
        return dict_set(d.args[0], k, v)
    if d.op == 'dupd' and is_const(k) and is_const(d.args[1]):
        # order independent chain of distinct constant keys
        if str(d.args[1].args) > str(k.args):
            return N('dupd', dict_set(d.args[0], k, v),
                     d.args[1], d.args[2])
    if d.op == 'DictC' and is_const(k) and all(
            b_and(to_bool(g), eq(e, k)) is FALSE
            for e, _, g in d.args[3]):
        # no element of the loop sets this key
        return rebind(N('DictC', d.args[0], d.args[1],
                        dict_set(d.args[2], k, v), d.args[3]))
    return N('dupd', d, k, v)


def dict_merge(d, o):
    if o.op == 'dict':
        for k, v in o.args[0]:
            d = dict_set(d, k, v)
        return d
    if o.op == 'dupd' and o.args[0].op in ('dict', 'dupd'):
        d = dict_merge(d, o.args[0])
        return dict_set(d, o.args[1], o.args[2])
    if o.op == 'DictC' and o.args[2] is EMPTYD:
        return N('DictC', o.args[0], o.args[1], d, o.args[3])
    if d.op == 'dict' and not d.args[0]:
        return N('call', N('ext', 'copy'), (o,), ())
    return N('dmerge', d, o)


def const_leaves(k):
    if k.op == 'ite':
        return const_leaves(k.args[1]) and const_leaves(k.args[2])
    return k.op == 'str'


def _apart(k, j):
    """do the two indices select different entries?"""
    if k.op == 'str' and j.op == 'str':
        return k is not j
    if k.op != 'seq' or j.op != 'seq' or len(k.args) != len(j.args):
        return False
    diff = False
    for x, y in zip(k.args, j.args):
        if x is y:
            continue
        if x.op != 'num' or y.op != 'num' or (
                x.args[0] < 0) != (y.args[0] < 0):
            return False
        diff = True
    return diff


def _before(k, j):
    if k.op == 'str':
        return k.args[0] < j.args[0]
    return [x.args[0] for x in k.args if x.op == 'num'] < \
        [x.args[0] for x in j.args if x.op == 'num']


def array_set(c, k, v):
    """c with element k set to v"""
    if v is item(c, k) and k.op == 'str':
        return c
    if c.op == 'aupd':
        if c.args[1] is k:
            return array_set(c.args[0], k, v)
        if _apart(k, c.args[1]) and _before(k, c.args[1]):
            return N('aupd', array_set(c.args[0], k, v), *c.args[1:])
    return N('aupd', c, k, v)


def counters_sum(k):
    """Whether k is a sum of loop counters (and a constant): not negative."""
    return k.op == 'poly' and all(
        c > 0 and all(b.op in ('bv', 'bvar') and e > 0 for b, e in m)
        for m, c in k.args[0])


def item(x, k):
    if k.op in ('bv', 'bvar') and list_call(x):
        return item(x.args[1][0], k)
    if k.op == 'num' and k.args[0].denominator == 1:
        i = int(k.args[0])
        if x.op == 'seq' and -len(x.args) <= i < len(x.args):
            return x.args[i]
        if x.op == 'str' and -len(x.args[0]) <= i < len(x.args[0]):
            return const(x.args[0][i])
        if x.op == 'cat' and i >= 0 and x.args[0].op == 'seq' and \
                i < len(x.args[0].args):
            return x.args[0].args[i]
        if x.op == 'cat' and i >= 0 and x.args[0].op == 'seq':
            r = item(cat(x.args[1:]), num(i - len(x.args[0].args)))
            if r.op == 'ite':
                return r
        if x.op == 'cat' and i < 0 and x.args[-1].op == 'seq' and \
                -i <= len(x.args[-1].args):
            return x.args[-1].args[i]
    if x.op == 'dict':
        hit = None
        allc = True
        for kk, v in x.args[0]:
            if kk is k:
                hit = v
            if not is_const(kk):
                allc = False
        if hit is not None:
            return hit
    if x.op == 'dupd':
        if x.args[1] is k:
            return x.args[2]
        if is_const(x.args[1]) and is_const(k):
            return item(x.args[0], k)
    if x.op == 'aupd':
        if x.args[1] is k:
            return x.args[2]
        if _apart(x.args[1], k):
            return item(x.args[0], k)
    if x.op == 'firstret' and is_const(k):
        return rebind(N('firstret', x.args[0], x.args[1], x.args[2],
                        item(x.args[3], k)))
    if x.op == 'ite' and k.op == 'seq' and 'aupd' in (
            x.args[1].op, x.args[2].op):
        # an entry which a conditional update leaves alone
        a, b = item(x.args[1], k), item(x.args[2], k)
        if a is b:
            return a
    if x.op == 'ite':
        if _lit(x.args[1]) or _lit(x.args[2]):
            return ite(x.args[0], item(x.args[1], k), item(x.args[2], k))
    if k.op == 'ite' and const_leaves(k):
        return ite(k.args[0], item(x, k.args[1]), item(x, k.args[2]))
    if x.op == 'dupd' and x.args[0].op == 'ddel' and is_const(x.args[1]) \
            and is_const(k):
        return item(x.args[0], k)
    if x.op == 'ddel' and is_const(x.args[1]) and is_const(k) and \
            x.args[1] is not k:
        return item(x.args[0], k)
    if x.op == 'item' and x.args[1].op in ('num', 'bvar', 'bv') and \
            arrayish(x.args[0]):
        # a[i][j] is a[i, j]
        return item(x.args[0], seq([x.args[1]] + (
            list(k.args) if k.op == 'seq' else [k])))
    if x.op == 'attr' and x.args[1] == 'shape' and k is ZERO:
        return length(x.args[0])
    if x.op == 'Flat' and x.args[2].op == 'seq' and \
            len(x.args[2].args) == 1 and (
                k.op in ('bvar', 'bv') or counters_sum(k)):
        return subst(x.args[2].args[0], {N('bv', x.args[0]): k})
    if k.op == 'slice' and k.args[0] in (NONE, ZERO) and k.args[1] is NONE \
            and k.args[2] is NONE and x.op == 'seq':
        return x
    if x.op == 'item' and x.args[1].op == 'slice' and k.op in (
            'bvar', 'bv') and x.args[1].args[2] is NONE and \
            x.args[1].args[1] is NONE:
        lo = x.args[1].args[0]
        if lo is NONE:
            return item(x.args[0], k)
    if x.op == 'item' and x.args[1].op == 'slice' and k.op == 'num' and \
            k.args[0] >= 0 and x.args[1].args[2] is NONE:
        # x[a:b][i] is x[a + i]
        lo, hi, _ = x.args[1].args
        lo = ZERO if lo is NONE else lo
        if lo.op == 'num' and lo.args[0] >= 0 and (hi is NONE or (
                hi.op == 'num' and lo.args[0] + k.args[0] < hi.args[0])):
            return item(x.args[0], add(lo, k))
    if k.op == 'slice' and k.args[0] is ZERO:
        k = N('slice', NONE, k.args[1], k.args[2])
    elif k.op == 'seq' and any(
            y.op == 'slice' and y.args[0] is ZERO for y in k.args):
        k = seq([N('slice', NONE, y.args[1], y.args[2])
                 if y.op == 'slice' and y.args[0] is ZERO else y
                 for y in k.args])
    return N('item', x, k)


ARRAYS = {'numpy.' + x for x in (
    'array asarray zeros ones full empty zeros_like ones_like stack '
    'concatenate reshape transpose tile repeat arange linspace vstack hstack '
    'atleast_2d expand_dims squeeze swapaxes').split()} | {
        'tensorflow.' + x for x in (
            'stack concat reshape transpose tile zeros ones zeros_like '
            'ones_like convert_to_tensor expand_dims squeeze').split()}


def arrayish(x):
    """certainly an array, not a list of lists"""
    if x.op == 'attr':
        return x.args[1] == 'T'
    if x.op == 'aupd':
        return arrayish(x.args[0])
    return x.op == 'call' and x.args[0].op == 'ext' and \
        x.args[0].args[0] in ARRAYS


def _lit(n):
    return n.op in ('seq', 'dict', 'dupd', 'cat', 'Flat') or (
        n.op == 'ite' and (_lit(n.args[1]) or _lit(n.args[2])))


def length(x):
    if x.op == 'seq':
        return num(len(x.args))
    if x.op == 'dict':
        return num(len(x.args[0]))
    if x.op == 'Flat' and x.args[2].op == 'seq' and len(x.args[2].args) == 1:
        d = x.args[1]
        if d.op == 'rng':
            return d.args[0]
    if x.op == 'cat':
        r = ZERO
        for p in x.args:
            r = add(r, length(p))
        return r
    if x.op == 'ite':
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == 'str':
        return num(len(x.args[0]))
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in (
            'list', 'tuple', 'sorted', 'deepcopy', 'copy', 'reversed',
            'dict') and x.args[1] and not x.args[2]:
        return length(x.args[1][0])
    return N('len', x)


def attr(x, name):
    if x.op == 'ite' and (x.args[1].op == 'new' or x.args[2].op == 'new'):
        return ite(x.args[0], attr(x.args[1], name), attr(x.args[2], name))
    return N('attr', x, name)


# ---------------------------------------------------------------- booleans
BOOL_ATOMS = {'lt', 'eq', 'is', 'in', 'isinstance', 'truth', 'exists',
              'exc', 'hasattr'}


def is_boolean(n):
    return n.op in ('true', 'false', 'bite') or n.op in BOOL_ATOMS


def batom(a):
    if a is TRUE or a is FALSE or a.op == 'bite':
        return a
    return N('bite', a, TRUE, FALSE)


def bval(b):
    """boolean formula as a value"""
    if b.op == 'bite' and b.args[1] is TRUE and b.args[2] is FALSE:
        return b.args[0]
    return b


def to_bool(v):
    op = v.op
    if op in ('true', 'false', 'bite'):
        return v
    if op in BOOL_ATOMS:
        return batom(v)
    if op == 'num':
        return TRUE if v.args[0] != 0 else FALSE
    if op == 'str':
        return TRUE if v.args[0] else FALSE
    if op == 'none':
        return FALSE
    if op == 'seq':
        return TRUE if v.args else FALSE
    if op == 'dict':
        return TRUE if v.args[0] else FALSE
    if op in ('dupd', 'lam', 'clo', 'glob', 'new'):
        return TRUE
    if op == 'cat':
        r = FALSE
        for p in v.args:
            r = b_or(r, to_bool(p))
        return r
    if op == 'Flat':
        return batom(mk_exists(v.args[0], v.args[1], to_bool(v.args[2])))
    if op == 'ite':
        return b_ite(to_bool(v.args[0]), to_bool(v.args[1]),
                     to_bool(v.args[2]))
    if op == 'len':
        return to_bool(v.args[0])
    if op == 'op' and v.args[0] == 'BitAnd' and setty(v.args[1]) and \
            setty(v.args[2]):
        return some_of(v.args[1], lambda x: contains(v.args[2], x))
    if op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in (
            'list', 'tuple', 'sorted', 'dict', 'deepcopy', 'set',
            'frozenset') and v.args[1] and len(v.args[1]) == 1:
        return to_bool(v.args[1][0])
    if op == 'call' and v.args[0].op == 'meth' and len(v.args[1]) == 2 and \
            not v.args[2] and setty(v.args[1][0]) and v.args[0].args[0] in (
                'issubset', 'issuperset', 'isdisjoint'):
        a, b = v.args[1]
        if v.args[0].args[0] == 'isdisjoint':
            return b_not(some_of(a, lambda x: contains(b, x)))
        if v.args[0].args[0] == 'issuperset':
            a, b = b, a
        return subset(a, b)
    if op == 'poly':
        d = set_difference(v)
        if d is not None:
            return b_not(subset(*d))
    if op in ('poly', 'Sum') or op == 'op' and v.args[0] == 'Mod' and \
            not _stry(v.args[1]) and v.args[1].op != 'str':
        return b_not(eq(ZERO, v))
    return batom(N('truth', v))


def mk_bite(a, hi, lo):
    if hi is lo:
        return hi
    k = _kind(a)
    if k is not None and (hi.op == 'bite' or lo.op == 'bite'):
        # atoms which a rules out are false where a holds
        hi = _rule_out(hi, k, {})
        if hi is lo or hi is _rule_out(lo, k, {}):
            return lo
    return N('bite', a, hi, lo)


DISJOINT = {'str': 0, 'dict': 1, 'list': 2, 'tuple': 3, 'set': 4, 'float': 5,
            'bytes': 6, 'numpy.ndarray': 7}
_kinds = {}


def _kind(a):
    """(subject, what the atom says its value or type is)"""
    if a in _kinds:
        return _kinds[a]
    r = None
    if a.op == 'isinstance' and a.args[1].op == 'ext' and \
            a.args[1].args[0] in DISJOINT:
        r = (a.args[0], 'type', a.args[1].args[0])
    elif a.op in ('eq', 'is'):
        x, y = a.args
        if x.op in ('num', 'str', 'none'):
            x, y = y, x
        if y.op in ('num', 'str', 'none') and x.op not in (
                'num', 'str', 'none'):
            r = (x, y.op, y.args[0] if y.args else None)
    _kinds[a] = r
    return r


def _excludes(k, j):
    if k[0] is not j[0] or k[1:] == j[1:]:
        return False
    if k[1] == 'type' or j[1] == 'type':
        if k[1] == j[1]:
            return True
        t, v = (k, j) if k[1] == 'type' else (j, k)
        return v[1] == 'none' or v[1] == 'str' and t[2] != 'str'
    return True


def _rule_out(b, k, memo):
    if b.op != 'bite':
        return b
    r = memo.get(b)
    if r is None:
        j = _kind(b.args[0])
        lo = _rule_out(b.args[2], k, memo)
        if j is not None and _excludes(k, j):
            r = lo
        else:
            hi = _rule_out(b.args[1], k, memo)
            r = b if hi is b.args[1] and lo is b.args[2] else \
                mk_bite(b.args[0], hi, lo)
        memo[b] = r
    return r


_ite_memo = {}


def _cof(b, a, v):
    if b.op == 'bite' and b.args[0] is a:
        return b.args[1] if v else b.args[2]
    return b


def b_ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    key = (c, t, e)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    top = min((x.args[0] for x in (c, t, e) if x.op == 'bite'),
              key=lambda n: n.id)
    r = mk_bite(top,
                b_ite(_cof(c, top, True), _cof(t, top, True),
                      _cof(e, top, True)),
                b_ite(_cof(c, top, False), _cof(t, top, False),
                      _cof(e, top, False)))
    _ite_memo[key] = r
    return r


def b_not(a):
    return b_ite(a, FALSE, TRUE)


def b_and(a, b):
    return b_ite(a, b, FALSE)


def b_or(a, b):
    return b_ite(a, TRUE, b)


def b_implies(a, b):
    return b_or(b_not(a), b) is TRUE


def b_restrict(f, c, memo=None):
    """simplify f assuming c (Coudert/Madre style, positive cube only)."""
    if c is TRUE or f.op != 'bite' or c.op != 'bite':
        return f
    if memo is None:
        memo = {}
    key = (f, c)
    if key in memo:
        return memo[key]
    a, b = f.args[0], c.args[0]
    if a is b:
        if c.args[1] is FALSE:
            r = b_restrict(f.args[2], c.args[2], memo)
        elif c.args[2] is FALSE:
            r = b_restrict(f.args[1], c.args[1], memo)
        else:
            r = mk_bite(a, b_restrict(f.args[1], c.args[1], memo),
                        b_restrict(f.args[2], c.args[2], memo))
    elif b.id < a.id:
        r = b_restrict(f, b_or(c.args[1], c.args[2]), memo)
    else:
        r = mk_bite(a, b_restrict(f.args[1], c, memo),
                    b_restrict(f.args[2], c, memo))
    memo[key] = r
    return r


def _bdd_size(f):
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.op == 'bite' and x not in seen:
            seen.add(x)
            todo.extend(x.args[1:])
    return len(seen)


_care_memo = {}


def b_care(c, r):
    """a condition which equals c where r holds, the same one for each c and
    for its complement"""
    if r is TRUE or c.op != 'bite' or r.op != 'bite':
        return c
    r0 = _care_memo.get((c, r))
    if r0 is not None:
        return r0
    n = b_not(c)
    lo, ln = b_and(c, r), b_and(n, r)
    best = None
    for f in (lo, b_not(ln), b_restrict(lo, r), b_not(b_restrict(ln, r))):
        g = b_not(f)
        k = (_bdd_size(f), min(f.id, g.id), max(f.id, g.id))
        if best is None or k < best[0]:
            best = (k, f)
    _care_memo[c, r] = best[1]
    return best[1]


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_boolean(a) and is_boolean(b):
        return bval(b_ite(c, to_bool(a), to_bool(b)))
    # positive polarity of the top most atom
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # guard chains: ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return ite(b_or(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(b_and(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        # c ? (d ? b : z) : b
        return ite(b_and(c, b_not(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[2] is a:
        # c ? a : (d ? y : a)
        return ite(b_and(b_not(c), b.args[0]), b.args[1], a)
    r = _ite_cat(c, a, b)
    if r is not None:
        return r
    if _neg_lead(c):
        c, a, b = b_not(c), b, a
    return N('ite', c, a, b)


def _neg_lead(c):
    """canonical polarity: the all-true path of the diagram ends in TRUE"""
    while c.op == 'bite':
        c = c.args[1]
    return c is FALSE


def some(v):
    """v > 0 for a count v (None if v may be something else)"""
    if v.op == 'num':
        x = v.args[0]
        if x < 0 or x.denominator != 1:
            return None
        return TRUE if x > 0 else FALSE
    if v.op == 'len':
        return to_bool(v.args[0])
    if v.op == 'ite':
        x, y = some(v.args[1]), some(v.args[2])
        if x is None or y is None:
            return None
        return b_ite(v.args[0], x, y)
    if v.op == 'Sum':
        x = some(v.args[2])
        if x is None:
            return None
        return batom(mk_exists(v.args[0], v.args[1], x))
    return None


def subset(a, b):
    """every element of a is one of b"""
    return b_not(some_of(a, lambda x: b_not(contains(b, x))))


def set_difference(v):
    """(a, b) if v is the difference a - b of two sets"""
    p = to_poly(v)
    if len(p) != 2 or sorted(p.values()) != [-1, 1]:
        return None
    r = {}
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        x = m[0][0]
        if not setty(x):
            return None
        r[c] = x
    return r[1], r[-1]


def keyview(n):
    return n.op == 'call' and n.args[0] is N('ext', 'keys') and \
        len(n.args[1]) == 1


def list_call(x):
    return x.op == 'call' and x.args[0] is N('ext', 'list') and \
        len(x.args[1]) == 1


def lt(a, b):
    if a is ZERO and b.op in ('bv', 'bvar'):
        return b_not(eq(a, b))
    if b is ZERO and a.op in ('bv', 'bvar'):
        return FALSE
    if setty(a) and setty(b):
        return b_and(subset(a, b), b_not(eq(a, b)))
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is ZERO and b.op == 'Sum' or b is ONE and a.op == 'Sum':
        r = some(b if a is ZERO else a)
        if r is not None:
            return r if a is ZERO else b_not(r)
    if b.op == 'len' and a is ZERO:
        return to_bool(b.args[0])
    if a.op == 'len' and b is ONE:
        return b_not(to_bool(a.args[0]))
    # canonical for polynomials with number: move everything to one side when
    # both sides are numeric expressions
    if (a.op == 'poly' or b.op == 'poly'):
        p = to_poly(sub(b, a))
        if not p:
            return FALSE
        c0 = p.pop((), Fraction(0))
        if not p:
            return TRUE if c0 > 0 else FALSE
        # b - a = p + c0 > 0
        lead, prim = _content(p)
        # lead * prim + c0 > 0
        bound = num(-c0 / lead)
        if lead > 0:
            return batom(N('lt', bound, prim))
        return batom(N('lt', prim, bound))
    return batom(N('lt', a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == 'len' and b is ZERO:
        return b_not(to_bool(a.args[0]))
    if b.op == 'len' and a is ZERO:
        return b_not(to_bool(b.args[0]))
    for x, y in ((a, b), (b, a)):
        if x is ZERO and y.op == 'Sum':
            r = some(y)
            if r is not None:
                return b_not(r)
        if y in (EMPTY, EMPTYD) and x.op not in ('str',):
            return b_not(to_bool(x))
        if y is TRUE and is_boolean(x):
            return to_bool(x)
        if y is FALSE and is_boolean(x):
            return b_not(to_bool(x))
        if y is NONE:
            return is_none(x)
    if a.op == 'ite' and is_const(b) and (
            is_const(a.args[1]) or is_const(a.args[2])):
        return b_ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and is_const(a) and (
            is_const(b.args[1]) or is_const(b.args[2])):
        return b_ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'poly' or b.op == 'poly':
        p = to_poly(sub(a, b))
        if not p:
            return TRUE
        c0 = p.pop((), Fraction(0))
        if not p:
            return FALSE
        lead, prim = _content(p)
        a, b = prim, num(-c0 / lead)
    if a.op == 'seq' and b.op == 'seq' and a.args and b.args:
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = b_and(r, eq(x, y))
        return r
    if keyview(a) and (keyview(b) or setty(b)) or keyview(b) and setty(a):
        return eq(as_set(a), as_set(b))
    if a.id > b.id:
        a, b = b, a
    return batom(N('eq', a, b))


NEVER_NONE = {'num', 'str', 'true', 'false', 'seq', 'dict', 'dupd', 'cat',
              'Flat', 'fmt', 'path', 'poly', 'lam', 'clo', 'bite', 'glob',
              'len', 'new', 'aupd', 'DictC', 'Sum', 'rep', 'lt', 'eq', 'in',
              'truth', 'exists', 'isinstance'}


def _indexed(c, v):
    """the condition looks at an entry of v"""
    todo, seen = [c], set()
    while todo:
        n = todo.pop()
        if n.op == 'item' and n.args[0] is v:
            return True
        if n not in seen:
            seen.add(n)
            todo.extend(_iter_nodes(n.args))
    return False


def is_none(x):
    if x is NONE:
        return TRUE
    if x.op in NEVER_NONE:
        return FALSE
    if x.op == 'firstret' and (is_none(x.args[3]) is FALSE or _indexed(
            x.args[2], x.args[3])):
        return FALSE
    if x.op == 'ite':
        return b_ite(x.args[0], is_none(x.args[1]), is_none(x.args[2]))
    return batom(N('is', x, NONE))


def is_(a, b):
    if a is NONE:
        return is_none(b)
    if b is NONE:
        return is_none(a)
    if a is b and is_const(a):
        return TRUE
    if b is TRUE and is_boolean(a):
        return to_bool(a)
    if b is FALSE and is_boolean(a):
        return b_not(to_bool(a))
    if a.id > b.id:
        a, b = b, a
    return batom(N('is', a, b))


def contains(c, x):
    if c.op in ('seq', 'setlit'):
        r = FALSE
        for y in c.args:
            r = b_or(r, eq(y, x))
        return r
    if c.op == 'dict' and (not c.args[0] or all(
            is_const(k) for k, _ in c.args[0])):
        r = FALSE
        for k, _ in c.args[0]:
            r = b_or(r, eq(k, x))
        return r
    if c.op == 'dupd':
        return b_or(contains(c.args[0], x), eq(c.args[1], x))
    if c.op == 'ddel':
        return b_and(contains(c.args[0], x), b_not(eq(c.args[1], x)))
    if c.op == 'cat':
        r = FALSE
        for p in c.args:
            r = b_or(r, contains(p, x))
        return r
    if c.op == 'ite':
        return b_ite(c.args[0], contains(c.args[1], x),
                     contains(c.args[2], x))
    if c.op == 'iterv' and c.args[0].op == 'dmerge' and x.op == 'item' and \
            x.args[0] is c.args[0].args[1] and x.args[1].op in (
                'bvar', 'bv'):
        # the entries added so far have other keys
        return contains(c.args[0].args[0], x)
    if c.op == 'Flat':
        h, d, body = c.args
        return batom(mk_exists(h, d, contains(body, x)))
    if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] in (
            'list', 'tuple', 'set', 'sorted', 'keys', 'copy') \
            and c.args[1] and not c.args[2]:
        return contains(c.args[1][0], x)
    if c.op == 'op' and c.args[0] in ('BitAnd', 'BitOr') and setty(c):
        f = b_and if c.args[0] == 'BitAnd' else b_or
        return f(contains(c.args[1], x), contains(c.args[2], x))
    if c.op == 'DictC':
        h, d, init, ents = c.args
        r = contains(init, x)
        for k, v, g in ents:
            r = b_or(r, batom(mk_exists(h, d, b_and(g, eq(k, x)))))
        return r
    return batom(N('in', c, x))


def mk_exists(h, dom, body):
    """body may contain bv(h)"""
    if body is FALSE or dom.op == 'rng' and dom.args == (ZERO,):
        return FALSE
    hh = 1 + max([n.height for n in (dom, body)] + [0])
    if not _mentions_bv(body, h):
        # independent of the element: non empty domain and body
        ne = TRUE if dom.op != 'rng' else lt(ZERO, dom.args[0])
        if dom.op == 'rng':
            return bval(b_and(ne, body))
    if dom.op == 'until':
        # the element which ends the search is the first one of the domain
        p = subst(dom.args[2], {N('bv', dom.args[0]): N('bv', h)})
        if p is body or to_bool(p) is to_bool(body):
            return mk_exists(h, dom.args[1], body)
    if body.op == 'bite' and body.args[0].op == 'eq' and \
            body.args[1:] == (TRUE, FALSE) and \
            dom.op == 'rng' and dom.args[0].op == 'len':
        # some element equals v
        a = dom.args[0].args[0]
        e = item(a, N('bv', h))
        x, y = body.args[0].args
        if y is e:
            x, y = y, x
        if x is e and not _mentions_bv(y, h) and a.op not in (
                'Flat', 'cat', 'seq'):
            return bval(contains(elements(a), y))
    if body.op == 'bite' and body.args[0].op == 'in' and \
            dom.op == 'rng' and dom.args[0].op == 'len':
        # a common element: the smaller container is searched
        a, b = dom.args[0].args[0], body.args[0].args[0]
        bvn = N('bv', h)
        if body.args[1:] == (TRUE, FALSE) and \
                body.args[0].args[1] is item(a, bvn) and \
                not _mentions_bv(b, h):
            a, b = elements(a), elements(b)
            if rank(b) < rank(a) and b.op not in ('Flat', 'cat', 'ite'):
                h = 1 + max(a.height, b.height)
                return rebind(N('exists', h, N('rng', length(b)), contains(
                    a, item(b, N('bv', h)))))
    return rebind(N('exists', max(h, hh - 1, 1), dom, body))


def rank(n):
    return (n.op in ('iterv', 'mu', 'mub'), n.op, n.id)


def elements(n):
    """the container with the same elements as n"""
    while n.op == 'call' and n.args[0].op == 'ext' and n.args[0].args[0] in (
            'list', 'tuple', 'set', 'frozenset', 'keys', 'iter', 'sorted',
            'copy') and len(n.args[1]) == 1 and not n.args[2]:
        n = n.args[1][0]
    return n


def some_of(a, f):
    """f holds for some element of the container a"""
    a = elements(a)
    if a.op in ('seq', 'setlit'):
        r = FALSE
        for x in a.args:
            r = b_or(r, f(x))
        return r
    if a.op == 'ite':
        return b_ite(a.args[0], some_of(a.args[1], f), some_of(a.args[2], f))
    v = N('bvar', 'e', a.id)
    p = f(item(a, v))
    h = 1 + max(a.height, p.height)
    return to_bool(mk_exists(h, N('rng', length(a)), subst(
        p, {v: N('bv', h)})))


def _mentions_bv(n, h):
    bvn = N('bv', h)
    return _mentions(n, bvn, {})


def _mentions(n, x, memo):
    if n is x:
        return True
    r = memo.get(n)
    if r is not None:
        return r
    memo[n] = False
    r = any(_mentions(c, x, memo) for c in _iter_nodes(n.args))
    memo[n] = r
    return r


def mentions(n, x):
    return _mentions(n, x, {})


def rebind(n):
    """make the height of a binder minimal"""
    h = n.args[0]
    hh = 1
    for c in _iter_nodes(n.args[1:]):
        hb = inner_height(c)
        if hb + 1 > hh:
            hh = hb + 1
    if hh == h:
        return n
    m = {N('bv', h): N('bv', hh)}
    if n.op == 'fix':
        for k in range(len(n.args[2])):
            m[N('mub', h, k)] = N('mub', hh, k)
    if n.op == 'lam':
        for k in range(n.args[1] if isinstance(n.args[1], int) else 0):
            m[N('lv', h, k)] = N('lv', hh, k)
    return N(n.op, hh, *_subst_args(n.args[1:], m, {}))


def inner_height(c):
    return c.height


# ------------------------------------------------------- generic rebuilding
def _subst_args(args, m, memo):
    out = []
    for a in args:
        if isinstance(a, Node):
            out.append(_subst(a, m, memo))
        elif isinstance(a, tuple):
            out.append(_subst_args(a, m, memo))
        else:
            out.append(a)
    return tuple(out)


def _subst(n, m, memo):
    r = m.get(n)
    if r is not None:
        return r
    if not n.args:
        return n
    r = memo.get(n)
    if r is not None:
        return r
    new = _subst_args(n.args, m, memo)
    if new == n.args:
        r = n
    else:
        r = rebuild(n.op, new)
    memo[n] = r
    return r


def subst(n, m, memo=None):
    return _subst(n, m, {} if memo is None else memo)


def rebuild(op, a):
    if op == 'poly':
        r = ZERO
        for m, c in a[0]:
            t = num(c)
            for b, e in m:
                t = mul(t, power(b, e))
            r = add(r, t)
        return r
    if op == 'ite':
        return ite(to_bool(a[0]), a[1], a[2])
    if op == 'bite':
        c = to_bool(a[0])
        return b_ite(c, to_bool(a[1]), to_bool(a[2]))
    if op == 'item':
        return item(a[0], a[1])
    if op == 'aupd':
        return array_set(*a)
    if op == 'attr':
        return attr(a[0], a[1])
    if op == 'len':
        return length(a[0])
    if op == 'cat':
        return cat(a)
    if op == 'fmt':
        return fmt(a)
    if op == 'path':
        return path(a)
    if op == 'dict':
        return mk_dict(a[0])
    if op == 'dupd':
        return dict_set(a[0], a[1], a[2])
    if op == 'dmerge':
        return dict_merge(a[0], a[1])
    if op == 'lt':
        return bval(lt(a[0], a[1]))
    if op == 'eq':
        return bval(eq(a[0], a[1]))
    if op == 'is':
        return bval(is_(a[0], a[1]))
    if op == 'in':
        return bval(contains(a[0], a[1]))
    if op == 'truth':
        return bval(to_bool(a[0]))
    if op == 'exists':
        return mk_exists(a[0], a[1], to_bool(a[2]))
    if op == 'call':
        return call(a[0], a[1], a[2])
    if op == 'op' and a[0] in ('BitAnd', 'BitOr', 'BitXor'):
        return set_op(a[0], as_set(a[1]), as_set(a[2])) \
            if setty(a[1]) or setty(a[2]) else N('op', a[0], *sorted(a[1:], key=lambda x: x.id))
    if op == 'op':
        if a[0] == 'pow':
            return powr(a[1], a[2])
        return N('op', *a)
    if op == 'Flat':
        return mk_flat(a[0], a[1], a[2])
    if op == 'Sum':
        return mk_sum(a[0], a[1], a[2])
    if op == 'rep':
        return mul(a[0], a[1])
    if op in ('DictC', 'fix', 'last') and a[1].op == 'rng' and \
            a[1].args == (ZERO,):
        # no iterations
        return a[2][0][0] if op == 'fix' else a[2 if op == 'DictC' else 3]
    if op in BINDERS:
        return rebind(N(op, *a))
    return N(op, *a)


def mk_flat(h, dom, body):
    if body is EMPTY or dom.op == 'rng' and dom.args == (ZERO,):
        return EMPTY
    if body.op == 'seq' and len(body.args) == 1 and dom.op == 'rng':
        # [x for x in y] is list(y)
        y = whole_of(body.args[0], N('bv', h))
        if y is not None and length(y) is dom.args[0] and \
                not _mentions_bv(y, h):
            return y if y.op in ('Flat', 'cat', 'seq') else new_list(y)
    body = _part(body)
    return rebind(N('Flat', h, dom, body))


def whole_of(e, b):
    """y where e is y[b]"""
    if e.op == 'item' and e.args[1] is b:
        return e.args[0]
    if e.op == 'ite':
        x, y = whole_of(e.args[1], b), whole_of(e.args[2], b)
        if x is not None and y is not None:
            return ite(e.args[0], x, y)
    return None


def mk_sum(h, dom, body):
    if body is ZERO or dom.op == 'rng' and dom.args == (ZERO,):
        return ZERO
    return rebind(N('Sum', h, dom, body))


SET_METHODS = {'intersection': 'BitAnd', 'union': 'BitOr',
               'difference': 'Sub', 'symmetric_difference': 'BitXor'}


def call(f, args, kw):
    if f.op == 'meth' and f.args[0] in SET_METHODS and len(args) == 2 and \
            not kw and setty(args[0]):
        return set_op(SET_METHODS[f.args[0]], args[0], as_set(args[1]))
    if f.op == 'ext' and f.args[0] in ABS and len(args) == 1 and not kw and \
            args[0].op == 'poly':
        # |a - b| = |b - a|
        p = to_poly(args[0])
        if p and _content(p)[0] < 0:
            args = [neg(args[0])]
    return N('call', f, tuple(args), tuple(kw))


ABS = {'abs', 'numpy.absolute', 'numpy.abs', 'tensorflow.abs',
       'tensorflow.math.abs'}


SET_MUS = set()      # variables of loops which hold a set


def setty(n):
    """n is known to be a set"""
    if n.op in ('setlit', 'setadd') or n in SET_MUS:
        return True
    if n.op == 'call' and n.args[0].op == 'ext':
        return n.args[0].args[0] in ('set', 'frozenset')
    if n.op == 'op' and n.args[0] in ('BitAnd', 'BitOr', 'BitXor'):
        return setty(n.args[1]) and setty(n.args[2])
    if n.op == 'ite':
        return setty(n.args[1]) and setty(n.args[2])
    return False


def as_set(n):
    if setty(n):
        return n
    while n.op == 'call' and n.args[0].op == 'ext' and len(n.args[1]) == 1 \
            and n.args[0].args[0] in ('keys', 'list', 'tuple', 'iter'):
        n = n.args[1][0]
    if n.op == 'seq':
        return N('setlit', *sorted(set(n.args), key=lambda x: x.id))
    return N('call', N('ext', 'set'), (n,), ())


def members(n):
    """the members of a set as a piece of a list"""
    if n.op == 'setlit':
        return seq(n.args)
    if n.op == 'ite':
        return ite(n.args[0], members(n.args[1]), members(n.args[2]))
    if n.op == 'call' and n.args[0] is N('ext', 'set') and \
            len(n.args[1]) == 1:
        return _part(n.args[1][0])
    return n


def set_op(name, a, b):
    if name == 'Sub':
        return sub(a, b)
    if name == 'BitOr':
        if a.op == 'setlit' and b.op == 'setlit':
            return N('setlit', *sorted(set(a.args) | set(b.args),
                                       key=lambda x: x.id))
        for x, y in ((a, b), (b, a)):
            if x.op == 'setlit' and not x.args:
                return y
            if x.op == 'ite':
                return ite(x.args[0], set_op(name, x.args[1], y),
                           set_op(name, x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return N('op', name, a, b)


# --------------------------------------------------------------- condition
def cond_atoms(n):
    """atoms deciding conditions in n, outside of binder-bound variables"""
    if n._atoms is not None:
        return n._atoms
    if not n.flags & F_ITE and n.op not in BOOL_ATOMS:
        n._atoms = frozenset()
        return n._atoms
    s = set()
    if n.op == 'bite':
        s.add(n.args[0])
    for c in _iter_nodes(n.args):
        s |= cond_atoms(c)
    n._atoms = frozenset(s)
    return n._atoms


def cofactor(n, a, v, memo):
    """n with atom a assumed true/false"""
    if not n.flags & F_ITE:
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if a not in cond_atoms(n):
        memo[n] = n
        return n
    if n.op == 'bite' and n.args[0] is a:
        r = cofactor(n.args[1] if v else n.args[2], a, v, memo)
    else:
        new = _cof_args(n.args, a, v, memo)
        r = n if new == n.args else rebuild(n.op, new)
    memo[n] = r
    return r


def _cof_args(args, a, v, memo):
    out = []
    for x in args:
        if isinstance(x, Node):
            out.append(cofactor(x, a, v, memo))
        elif isinstance(x, tuple):
            out.append(_cof_args(x, a, v, memo))
        else:
            out.append(x)
    return tuple(out)


def nonnull(x):
    """x is a container, not None"""
    if x.op == 'ite':
        return nonnull(x.args[1]) and nonnull(x.args[2])
    if x.op == 'call' and x.args[0].op == 'ext':
        return x.args[0].args[0] in (
            'list', 'tuple', 'set', 'frozenset', 'sorted', 'keys', 'items',
            'values', 'dict', 'glob.glob', 'reversed', 'zip', 'enumerate')
    return x.op in NEVER_NONE or setty(x)


def some_element(dom):
    """the condition that dom has an element (None: unknown)"""
    if dom.op != 'rng':
        return None
    n = dom.args[0]
    if n.op == 'len':
        return to_bool(n.args[0]) if nonnull(n.args[0]) else None
    return lt(ZERO, n)


def consistent(lits):
    """cheap theory check of a dict atom -> bool"""
    eqs = {}
    neqs = set()
    for a, v in lits.items():
        if a.op in ('eq', 'is'):
            x, y = a.args
            if is_const(x) and not is_const(y):
                x, y = y, x
            if v:
                if is_const(y):
                    if x in eqs and eqs[x] is not y:
                        return False
                    eqs[x] = y
            else:
                neqs.add((x, y))
    kinds = {}
    for a, v in lits.items():
        k = _kind(a) if v else None
        if k is not None:
            for j in kinds.setdefault(k[0], []):
                if _excludes(k, j):
                    return False
            kinds[k[0]].append(k)
    for x, y in eqs.items():
        if (x, y) in neqs:
            return False
        for a, v in lits.items():
            if a.op == 'truth' and a.args[0] is x:
                if (to_bool(y) is TRUE) != v:
                    return False
            if a.op == 'lt' and y.op == 'num':
                p, q = a.args
                if p is x and q.op == 'num' and (
                        (y.args[0] < q.args[0]) != v):
                    return False
                if q is x and p.op == 'num' and (
                        (p.args[0] < y.args[0]) != v):
                    return False
    # bounds
    lo, hi = {}, {}
    for a, v in lits.items():
        if a.op == 'lt':
            p, q = a.args
            if v and lits.get(N('lt', q, p)):
                return False
            if v and (lits.get(N('eq', p, q)) or lits.get(N('eq', q, p))):
                return False
            if p.op == 'num':
                if v:
                    lo[q] = max(lo.get(q, p.args[0]), p.args[0])
                else:
                    hi[q] = min(hi.get(q, p.args[0]), p.args[0])
            elif q.op == 'num':
                if v:
                    hi[p] = min(hi.get(p, q.args[0]), q.args[0])
                else:
                    lo[p] = max(lo.get(p, q.args[0]), q.args[0])
    for x in lo:
        if x in hi and lo[x] > hi[x]:
            return False
    for a, v in lits.items():
        if v and a.op == 'exists':
            # an element of a domain without elements
            c = some_element(a.args[1])
            while c is not None and c.op == 'bite' and c.args[0] in lits:
                c = c.args[1] if lits[c.args[0]] else c.args[2]
            if c is FALSE:
                return False
            for b, w in lits.items():
                if not w and b.op == 'exists' and b is not a and \
                        b.args[1] is a.args[1] and b_implies(
                            to_bool(a.args[2]), to_bool(subst(b.args[2], {
                                N('bv', b.args[0]): N('bv', a.args[0])}))):
                    return False
    return True


def sat_path(b, lits):
    """a theory-consistent assignment making b true, or None"""
    if b is FALSE:
        return None
    if b is TRUE:
        return dict(lits)
    a = b.args[0]
    for v, nxt in ((True, b.args[1]), (False, b.args[2])):
        if nxt is FALSE:
            continue
        l2 = dict(lits)
        l2[a] = v
        if not consistent(l2):
            continue
        r = sat_path(nxt, l2)
        if r is not None:
            return r
    return None


def b_equal(a, b, lits=None):
    if a is b:
        return True
    x = b_ite(a, b_not(b), b)
    return sat_path(x, lits or {}) is None


# ------------------------------------------------------------------ display
def show(n, depth=0):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in n) + ')'
        return str(n)
    if depth > 9:
        return '..'
    o, a = n.op, n.args
    d = depth + 1
    if o == 'num':
        f = a[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if o == 'str':
        return repr(a[0])
    if o == 'none':
        return 'None'
    if o in ('true', 'false', 'undef', 'ellipsis'):
        return o
    if o == 'param':
        return str(a[-1])
    if o in ('ext', 'glob', 'fconst'):
        return str(a[0])
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a)
    if o == 'meth':
        return 'm:%s' % a[0]
    if o == 'call':
        ar = [show(x, d) for x in a[1]] + [
            '%s=%s' % (k, show(v, d)) for k, v in a[2]]
        if a[0].op == 'meth' and a[1]:
            return '%s.%s(%s)' % (ar[0], a[0].args[0], ', '.join(ar[1:]))
        return '%s(%s)' % (show(a[0], d), ', '.join(ar))
    if o == 'poly':
        ts = []
        for m, c in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(show(num(c)))
            for b, e in m:
                fs.append(show(b, d) if e == 1 else '%s^%s' % (
                    show(b, d), e))
            ts.append('*'.join(fs))
        return '(' + ' + '.join(ts) + ')'
    if o == 'bite':
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return 'not ' + show(a[0], d)
        return '{%s ? %s : %s}' % tuple(show(x, d) for x in a)
    if o == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d),
                                       show(a[2], d))
    if o == 'lt':
        return '%s < %s' % (show(a[0], d), show(a[1], d))
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'is':
        return '%s is %s' % (show(a[0], d), show(a[1], d))
    if o == 'in':
        return '%s in %s' % (show(a[1], d), show(a[0], d))
    if o == 'truth':
        return 'bool(%s)' % show(a[0], d)
    if o == 'seq':
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    if o == 'dict':
        return '{' + ', '.join('%s: %s' % (show(k, d), show(v, d))
                               for k, v in a[0]) + '}'
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
