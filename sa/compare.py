"""Decides whether two function summaries describe the same behaviour.

Terms are compared by descent; where the two sides place conditions at
different depths, both are split on the condition atoms (theory-inconsistent
combinations are pruned).  The result is either 'same', a list of concrete
differences, or 'unknown' when the search budget is exhausted.
"""
import time

from . import terms as T
from .terms import (N, Node, TRUE, FALSE, NONE, UNDEF, ZERO, b_and, b_not,
                    b_or, to_bool, show)


class Budget(Exception):
    pass


_fresh = [0]


def fresh(tag):
    _fresh[0] += 1
    return N('cv', tag, _fresh[0])


class Cmp(object):
    def __init__(self, budget=60000, seconds=None):
        self.left = budget
        self.stop = time.monotonic() + seconds if seconds else None
        self.memo = {}
        self.bound = {}

    def spend(self, n=1):
        self.left -= n
        if self.left < 0 or self.stop and time.monotonic() > self.stop:
            raise Budget()

    # ------------------------------------------------------------- booleans
    def unify_atoms(self, ga, gb):
        """rename atoms of gb (and ga) to equal atoms of the other side"""
        aa, ab = guard_atoms(ga), guard_atoms(gb)
        only_b = [x for x in ab if x not in aa]
        only_a = [x for x in aa if x not in ab]
        if not only_b or not only_a:
            return ga, gb
        m = {}
        for y in sorted(only_b, key=lambda n: n.id):
            for x in sorted(only_a, key=lambda n: n.id):
                if x.op != y.op:
                    continue
                if self.eq_args(x, y, {}):
                    m[y] = x
                    break
        if m:
            gb = subst_atoms(gb, m)
        return ga, gb

    def beq(self, ga, gb, lits=None):
        if ga is gb:
            return True
        self.spend()
        if ga.op not in ('true', 'false', 'bite'):
            ga = to_bool(ga)
        if gb.op not in ('true', 'false', 'bite'):
            gb = to_bool(gb)
        if T.b_equal(ga, gb, dict(lits or {})):
            return True
        ga, gb = self.unify_atoms(ga, gb)
        if T.b_equal(ga, gb, dict(lits or {})):
            return True
        # what holds for no element of a loop may be used for each of them
        lits = lits or {}
        if any(x.op == 'exists' and not v for x, v in lits.items()):
            ga, gb = self.unify_under(ga, gb, lits)
            if T.b_equal(ga, gb, dict(lits)):
                return True
        if sum(1 for x in lits if x.op == 'exists') >= 4:
            return False
        both = guard_atoms(ga) & guard_atoms(gb)
        for e in sorted(both, key=lambda n: n.id):
            if e.op == 'exists' and e not in lits:
                for v in (True, False):
                    l2 = dict(lits)
                    l2[e] = v
                    a2 = T.cofactor(ga, e, v, {})
                    b2 = T.cofactor(gb, e, v, {})
                    if not self.beq(a2, b2, l2):
                        return False
                return True
        # conditions inside the values which are tested
        hidden = set()
        for x in guard_atoms(ga) ^ guard_atoms(gb):
            hidden |= T.cond_atoms(x)
        hidden = [x for x in hidden if x not in lits and not has_bound(x)
                  and x.op != 'exists']
        if 0 < len(hidden) <= 8:
            e = min(hidden, key=lambda n: n.id)
            for v in (True, False):
                l2 = dict(lits)
                l2[e] = v
                if not T.consistent(l2):
                    continue
                if not self.beq(T.cofactor(ga, e, v, {}),
                                T.cofactor(gb, e, v, {}), l2):
                    return False
            return True
        return False

    def unify_under(self, ga, gb, lits):
        aa, ab = guard_atoms(ga), guard_atoms(gb)
        m = {}
        for y in sorted(ab - aa, key=lambda n: n.id):
            for x in sorted(aa - ab, key=lambda n: n.id):
                if x.op == y.op and self.eq_args(x, y, lits):
                    m[y] = x
                    break
        return ga, subst_atoms(gb, m) if m else gb

    def facts(self, dom, var, lits):
        """what is known of every element of dom, called var"""
        f = TRUE
        for at, v in lits.items():
            if at.op == 'exists' and not v and at.args[1] is dom:
                f = T.b_and(f, b_not(to_bool(T.subst(
                    at.args[2], {N('bv', at.args[0]): var}))))
        return f

    def same_when(self, ga, gb, node, lits=None):
        """equal conditions for an effect (for each element there is)"""
        if self.beq(ga, gb, lits):
            return True
        if node.op != 'foreach':
            return False
        p = T.some_element(node.args[1])
        return p is not None and self.beq(b_and(ga, p), b_and(gb, p), lits)

    # --------------------------------------------------------------- terms
    def eq(self, a, b, lits=None):
        if a is b:
            return True
        lits = lits or {}
        key = (a, b, frozenset(lits.items()) if lits else None)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.spend()
        self.memo[key] = False
        r = self._eq(a, b, lits)
        self.memo[key] = r
        return r

    def split(self, a, b, atom, lits):
        for v in (True, False):
            l2 = dict(lits)
            l2[atom] = v
            if not T.consistent(l2):
                continue
            a2 = T.cofactor(a, atom, v, {})
            b2 = T.cofactor(b, atom, v, {})
            if not self.eq(a2, b2, l2):
                return False
        return True

    def _eq(self, a, b, lits):
        isb = T.is_boolean(a) and T.is_boolean(b)
        if isb:
            return self.beq(to_bool(a), to_bool(b), lits)
        for x in (a, b):
            if x.op == 'ite':
                c = x.args[0]
                while c.op == 'bite' and c.args[0] in lits:
                    c = c.args[1] if lits[c.args[0]] else c.args[2]
                if c.op != 'bite':
                    y = x.args[1] if c is TRUE else x.args[2]
                    return self.eq(y, b, lits) if x is a else \
                        self.eq(a, y, lits)
        if a.op == 'ite' and b.op == 'ite':
            if self.eq(a.args[1], b.args[1], lits) and \
                    self.eq(a.args[2], b.args[2], lits) and \
                    self.beq(a.args[0], b.args[0], lits):
                return True
            if self.eq(a.args[1], b.args[2], lits) and \
                    self.eq(a.args[2], b.args[1], lits) and \
                    self.beq(a.args[0], b_not(b.args[0]), lits):
                return True
            ga, gb = self.unify_atoms(a.args[0], b.args[0])
            if gb is not b.args[0]:
                m = match_map(b.args[0], gb, self)
                b = subst_all_atoms(b, a, self)
        if a.op == 'ite' or b.op == 'ite':
            b = subst_all_atoms(b, a, self)
            if a is b:
                return True
            x = a if a.op == 'ite' else b
            if x.op == 'ite':
                return self.split(a, b, x.args[0].args[0], lits)
            return self.eq(a, b, lits)
        if a.op == b.op and self.eq_args(a, b, lits):
            return True
        if self.lenient(a, b, lits):
            return True
        # conditions hidden deeper
        ca, cb = T.cond_atoms(a), T.cond_atoms(b)
        only = [x for x in (ca | cb) if not has_bound(x)]
        if only:
            b2 = subst_all_atoms(b, a, self)
            if b2 is not b:
                return self.eq(a, b2, lits)
            diff = [x for x in only if (x in ca) != (x in cb)]
            cand = diff or only
            if len(only) <= 14:
                at = min(cand, key=lambda n: n.id)
                return self.split(a, b, at, lits)
        # known equalities
        m = {}
        for at, v in lits.items():
            if not v and at.op == 'lt' and at.args[0].op == 'num':
                m[N('rng', T.sub(at.args[1], at.args[0]))] = N('rng', ZERO)
            if v and at.op == 'lt' and at.args[1].op == 'num':
                m[N('rng', T.sub(at.args[0], T.sub(at.args[1], T.ONE)))] = \
                    N('rng', ZERO)
            if not v and at.op == 'truth':
                m[N('rng', N('len', at.args[0]))] = N('rng', ZERO)
            if v and at.op in ('eq', 'is'):
                x, y = at.args
                if T.is_const(x):
                    x, y = y, x
                if T.is_const(y) and not T.is_const(x):
                    m[x] = y
        if m:
            a2, b2 = T.subst(a, m), T.subst(b, m)
            if a2 is b2:
                return True
            if a2 is not a or b2 is not b:
                return self.eq(a2, b2, {k: v for k, v in lits.items()
                                        if not (v and k.op in ('eq', 'is'))
                                        and not (not v and k.op in (
                                            'lt', 'truth'))})
        return False

    def lenient(self, a, b, lits):
        for x, y in ((a, b), (b, a)):
            if x.op == 'zipdom' and y in x.args:
                return True
            if x.op == 'zipdom' and y.op == 'zipdom':
                return bool(set(x.args) & set(y.args))
            if x.op == 'cat' and len(x.args) == 1:
                return self.eq(x.args[0], y, lits)
            # lambda v: f(v)
            if x.op == 'lam' and not x.args[2] and x.args[4] is FALSE and \
                    not x.args[5] and x.args[3].op == 'call' and \
                    x.args[3].args[0].op in ('param', 'ext') and \
                    x.args[3].args[1] == tuple(
                        N('lv', x.args[0], i) for i in range(x.args[1])) \
                    and not x.args[3].args[2]:
                return self.eq(x.args[3].args[0], y, lits)
            # list(x) / tuple(x) of something list like
            if is_ext(x, ('list', 'tuple')) and len(x.args[1]) == 1 and \
                    T._listy(y) and self.eq(x.args[1][0], y, lits):
                return True
        return False

    def eq_args(self, a, b, lits):
        op = a.op
        if op in ('num', 'str', 'param', 'ext', 'glob', 'cv', 'bvar', 'bv',
                  'lv', 'mub', 'fconst', 'bytes', 'mod', 'clo'):
            return False
        if op == 'poly':
            return self.poly(a, b, lits)
        if op in T.BINDERS:
            return self.binder(a, b, lits)
        if op in ('eq', 'is'):
            x, y = a.args
            u, v = b.args
            return (self.eq(x, u, lits) and self.eq(y, v, lits)) or \
                (self.eq(x, v, lits) and self.eq(y, u, lits))
        if op == 'dict':
            da, db = dict(a.args[0]), dict(b.args[0])
            if set(da) != set(db):
                return False
            return all(self.eq(da[k], db[k], lits) for k in da)
        if op == 'setlit':
            return len(a.args) == len(b.args) and all(
                any(self.eq(x, y, lits) for y in b.args) for x in a.args)
        if op == 'ctxcall':
            if not self.eq(a.args[0], b.args[0], lits):
                return False
            ca, cb = dict(a.args[1]), dict(b.args[1])
            for k in set(ca) | set(cb):
                if not self.eq(ca.get(k, k), cb.get(k, k), lits):
                    return False
            return True
        if op == 'call' and a.args[0].op == 'ext' and b.args[0].op == 'ext' \
                and a.args[0].args[0] != b.args[0].args[0]:
            return False
        return self.args(a.args, b.args, lits)

    def args(self, xs, ys, lits):
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if x is y:
                continue
            if isinstance(x, Node) and isinstance(y, Node):
                if not self.eq(x, y, lits):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if not self.args(x, y, lits):
                    return False
            elif x != y:
                return False
        return True

    def poly(self, a, b, lits):
        pa, pb = T.to_poly(a), T.to_poly(b)
        la = {m: c for m, c in pa.items() if pb.get(m) != c}
        lb = {m: c for m, c in pb.items() if pa.get(m) != c}
        if not la and not lb:
            return True
        if len(la) != len(lb):
            return False
        rest = list(lb.items())
        for m, c in la.items():
            hit = None
            for i, (m2, c2) in enumerate(rest):
                if c2 == c and self.mono(m, m2, lits):
                    hit = i
                    break
            if hit is None:
                return False
            rest.pop(hit)
        return True

    def mono(self, m1, m2, lits):
        if len(m1) != len(m2):
            return False
        r1 = [f for f in m1 if f not in m2]
        r2 = [f for f in m2 if f not in m1]
        for b, e in r1:
            hit = None
            for i, (b2, e2) in enumerate(r2):
                if e2 == e and self.eq(b, b2, lits):
                    hit = i
                    break
            if hit is None:
                return False
            r2.pop(hit)
        return True

    def open(self, a, b):
        """replace bound variables of two binders by common fresh ones"""
        ha, hb = a.args[0], b.args[0]
        key = ('open', a.op, ha, hb)
        if key not in self.bound:
            self.bound[key] = {
                'v': fresh('b'), 'mu': [fresh('m') for _ in range(12)],
                'lv': [fresh('l') for _ in range(24)]}
        f = self.bound[key]

        def mp(h):
            m = {N('bv', h): f['v']}
            for i in range(12):
                m[N('mub', h, i)] = f['mu'][i]
            if a.op == 'lam':
                for i in range(24):
                    m[N('lv', h, i)] = f['lv'][i]
            return m
        return (T._subst_args(a.args[1:], mp(ha), {}),
                T._subst_args(b.args[1:], mp(hb), {}))

    def lam_events(self, ea, eb):
        out = []
        compare_events(self, Events(ea), Events(eb), out)
        return not out

    def binder(self, a, b, lits):
        xa, xb = self.open(a, b)
        if a.op == 'DictC':
            xa = xa[:2] + (same_entries(xa[2]),)
            xb = xb[:2] + (same_entries(xb[2]),)
        if lits and a.op != 'lam' and a.args[1] is b.args[1]:
            f = self.facts(a.args[1], self.bound[
                ('open', a.op, a.args[0], b.args[0])]['v'], lits)
            if f is FALSE:
                return True
            if f is not TRUE:
                xa = (xa[0],) + tuple(assume(f, x) for x in xa[1:])
                xb = (xb[0],) + tuple(assume(f, x) for x in xb[1:])
        if a.op == 'exists':
            return self.eq(xa[0], xb[0], lits) and \
                self.beq(to_bool(xa[1]), to_bool(xb[1]), lits)
        if a.op in ('foreach',):
            return self.eq(xa[0], xb[0], lits) and \
                self.same_when(xa[1], xb[1], xa[2], lits) and \
                self.eq(xa[2], xb[2], lits)
        if a.op == 'lam':
            # ret under not raises; events as sets
            if xa[0] != xb[0] or not self.args(xa[1], xb[1], lits):
                return False
            if not self.beq(xa[3], xb[3], lits):
                return False
            if not self.eq(xa[2], xb[2], lits):
                return False
            return self.lam_events(xa[4], xb[4])
        if a.op == 'DictC':
            if not (self.eq(xa[0], xb[0], lits) and
                    self.eq(xa[1], xb[1], lits)):
                return False
            return self.args(xa[2], xb[2], lits)
        if a.op == 'fix':
            return self.eq(xa[0], xb[0], lits) and \
                self.args(xa[1], xb[1], lits)
        return self.args(xa, xb, lits)


def same_entries(es):
    """neighbouring entries of one key and value are one entry"""
    out = []
    for k, v, g in es:
        if out and out[-1][0] is k and out[-1][1] is v:
            g = T.bval(T.b_or(to_bool(out.pop()[2]), to_bool(g)))
        out.append((k, v, g))
    return tuple(out)


def assume(f, x):
    if isinstance(x, tuple):
        return tuple(assume(f, y) for y in x)
    if not isinstance(x, Node):
        return x
    if T.is_boolean(x):
        return T.bval(T.b_and(f, to_bool(x)))
    return T.ite(f, x, N('gtmp'))


def is_ext(n, names):
    return n.op == 'call' and n.args[0].op == 'ext' and \
        n.args[0].args[0] in names


def has_bound(n):
    return bool(n.flags & (T.F_BV | T.F_BVAR | T.F_MU)) and _free_bound(n)


def _free_bound(n):
    # atoms mentioning binder-bound variables that are not closed inside
    return _fb(n, {})


def _fb(n, memo):
    if not n.flags & T.F_BV:
        return False
    r = memo.get(n)
    if r is not None:
        return r
    if n.op == 'bv':
        r = True
    elif n.op in T.BINDERS:
        bv = N('bv', n.args[0])
        r = False
        for c in T._iter_nodes(n.args[1:]):
            for x in free_bvs(c):
                if x is not bv:
                    r = True
    else:
        r = any(_fb(c, memo) for c in T._iter_nodes(n.args))
    memo[n] = r
    return r


_fv = {}


def free_bvs(n):
    if not n.flags & T.F_BV:
        return frozenset()
    r = _fv.get(n)
    if r is not None:
        return r
    if n.op == 'bv':
        r = frozenset([n])
    else:
        s = set()
        for c in T._iter_nodes(n.args):
            s |= free_bvs(c)
        if n.op in T.BINDERS:
            s.discard(N('bv', n.args[0]))
        r = frozenset(s)
    _fv[n] = r
    return r


def guard_atoms(g):
    out = set()
    seen = set()
    todo = [g]
    while todo:
        x = todo.pop()
        if x in seen or x.op != 'bite':
            continue
        seen.add(x)
        out.add(x.args[0])
        todo.extend(x.args[1:])
    return out


def subst_atoms(g, m, memo=None):
    if memo is None:
        memo = {}
    if g.op != 'bite':
        return g
    if g in memo:
        return memo[g]
    a = m.get(g.args[0], g.args[0])
    r = T.b_ite(T.batom(a), subst_atoms(g.args[1], m, memo),
                subst_atoms(g.args[2], m, memo))
    memo[g] = r
    return r


def match_map(old, new, cmp):
    return None


def subst_all_atoms(b, a, cmp):
    """rename condition atoms of b to provably equal atoms of a"""
    ca, cb = T.cond_atoms(a), T.cond_atoms(b)
    ob = [x for x in cb if x not in ca]
    oa = [x for x in ca if x not in cb]
    if not ob or not oa or len(ob) * len(oa) > 400:
        return b
    m = {}
    for y in sorted(ob, key=lambda n: n.id):
        for x in sorted(oa, key=lambda n: n.id):
            if x.op == y.op and cmp.eq_args(x, y, {}):
                m[y] = x
                break
    if not m:
        return b
    return replace_atoms(b, m, {})


def replace_atoms(n, m, memo):
    if not n.flags & T.F_ITE:
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if n.op == 'bite':
        a = m.get(n.args[0])
        if a is None:
            a = replace_atoms(n.args[0], m, memo)
        r = T.b_ite(to_bool(a), replace_atoms(n.args[1], m, memo),
                    replace_atoms(n.args[2], m, memo))
    else:
        new = _ra_args(n.args, m, memo)
        r = n if new == n.args else T.rebuild(n.op, new)
    memo[n] = r
    return r


def _ra_args(args, m, memo):
    out = []
    for x in args:
        if isinstance(x, Node):
            out.append(replace_atoms(x, m, memo))
        elif isinstance(x, tuple):
            out.append(_ra_args(x, m, memo))
        else:
            out.append(x)
    return tuple(out)


# ------------------------------------------------------------------ summary
class Diff(object):
    def __init__(self, kind, line, text, ref=None, cur=None, guard=None):
        self.kind = kind
        self.line = line
        self.text = text
        self.ref = ref
        self.cur = cur
        self.guard = guard
        self.leaves = []

    def __repr__(self):
        return '%s@%s: %s' % (self.kind, self.line, self.text)


def strip_occ(n):
    if n.op == 'occ':
        return n.args[0]
    return n


def head(n):
    while n.op in ('occ', 'fin', 'ctxcall'):
        n = n.args[0]
    if n.op == 'foreach':
        return ('foreach',) + head(n.args[3])
    if n.op == 'call':
        f = n.args[0]
        return ('call', f.op, f.args[0] if f.args and not isinstance(
            f.args[0], Node) else f.op)
    if n.op == 'store':
        l = n.args[0]
        return ('store', l.op, l.args[1] if l.op == 'attr' else '')
    return (n.op,)


def norm_event(n):
    """views under which resource handling is the same"""
    return n


def compare(ref, cur, budget=60000, seconds=None):
    """list of Diff (empty: same behaviour) ; raises Budget"""
    c = Cmp(budget, seconds)
    out = []
    # signature
    if ref.nparams > cur.nparams:
        out.append(Diff('signature', cur.func.line,
                        'parameters removed: %d -> %d' % (
                            ref.nparams, cur.nparams)))
    dr, dc = dict(ref.defaults), dict(cur.defaults)
    for k, v in dr.items():
        if k not in dc:
            if isinstance(k, int) and k < cur.nparams or \
                    not isinstance(k, int):
                if not (isinstance(k, str) and k[3:] in cur.param_names):
                    pass
                out.append(Diff('default', cur.func.line,
                                'parameter %s lost its default' % (k,)))
        elif not c.eq(v, dc[k]):
            out.append(Diff('default', cur.func.line,
                            'default of parameter %s: %s -> %s' % (
                                k, show(v), show(dc[k])), v, dc[k]))
    for k in dc:
        if k not in dr and isinstance(k, int) and k < ref.nparams:
            pass       # a default was added: accepts more calls
    for i in range(ref.nparams, cur.nparams):
        if i not in dc:
            out.append(Diff('signature', cur.func.line,
                            'new required parameter %d' % i))
    if len(ref.decorators) != len(cur.decorators) or not all(
            c.eq(x, y) for x, y in zip(ref.decorators, cur.decorators)):
        out.append(Diff('decorator', cur.func.line, 'decorators %s -> %s' % (
            [show(x) for x in ref.decorators],
            [show(x) for x in cur.decorators])))
    # failure conditions
    if not c.beq(ref.raises, cur.raises):
        d = Diff('raises', cur.func.line, 'failure condition differs',
                 ref.raises, cur.raises)
        out.append(d)
    ok = b_and(b_not(ref.raises), b_not(cur.raises))
    # result
    if not c.eq(ref.ret, cur.ret):
        if not eq_under(c, ok, ref.ret, cur.ret):
            out.append(Diff('result', cur.func.line, 'result differs',
                            ref.ret, cur.ret, ok))
    # stores
    fr = merge_finals(ref.finals)
    fc = merge_finals(cur.finals)
    pair_finals(c, fr, fc, cur, out, ok)
    # effects
    compare_events(c, ref, cur, out, ok)
    return out


def eq_under(c, g, a, b):
    """equality on every case in which g holds"""
    if g is TRUE:
        return c.eq(a, b)
    if g is FALSE:
        return True
    gt = T.N('gtmp')
    return c.eq(T.ite(g, a, gt), T.ite(g, b, gt))


def merge_finals(fs):
    out = {}
    for loc, g, v in fs:
        val = T.ite(g, v, loc)
        if loc in out:
            val = T.ite(g, v, out[loc])
        out[loc] = val
    return {k: v for k, v in out.items() if v is not k}


def pair_finals(c, fr, fc, cur, out, ok):
    rest = dict(fc)
    todo = []
    for loc, v in fr.items():
        if loc in rest:
            w = rest.pop(loc)
            if not c.eq(v, w) and not eq_under(c, ok, v, w):
                out.append(Diff('store', cur.func.line,
                                'value stored in %s differs' % show(loc),
                                v, w, ok))
        else:
            todo.append((loc, v))
    for loc, v in todo:
        hit = None
        for l2 in rest:
            if l2.op == loc.op and c.eq(loc, l2):
                hit = l2
                break
        if hit is not None:
            w = rest.pop(hit)
            w = T.subst(w, {hit: loc})
            if not c.eq(v, w) and not eq_under(c, ok, v, w):
                out.append(Diff('store', cur.func.line,
                                'value stored in %s differs' % show(loc),
                                v, w, ok))
        elif not eq_under(c, ok, v, loc):
            out.append(Diff('store-missing', cur.func.line,
                            'no longer stores %s' % show(loc), v, loc))
    for loc, w in rest.items():
        if not eq_under(c, ok, w, loc):
            out.append(Diff('store-new', cur.func.line,
                            'additionally stores %s' % show(loc), loc, w))


class Event(object):
    def __init__(self, guard, node, order):
        self.guard, self.node, self.order, self.line = guard, node, order, 0


class Events(object):
    """the effects of a nested function"""
    def __init__(self, evs):
        self.events = [Event(g, n, i) for i, (g, n) in enumerate(evs)]
        self.func = self
        self.line = 0


def group(events):
    d = {}
    for e in events:
        if e.guard is FALSE:
            continue
        n = e.node
        if n in d:
            d[n][0] = b_or(d[n][0], e.guard)
        else:
            d[n] = [e.guard, e.line, e.order]
    return merge_nests(d)


def nest(n):
    """loops around an effect: ([(domain, guard)], effect)"""
    levels = []
    while n.op == 'foreach':
        v = N('cv', 'nest', len(levels))
        m = {N('bv', n.args[0]): v}
        for i in range(12):
            m[N('mub', n.args[0], i)] = N('cv', 'nestm', len(levels), i)
        d, g, x = T._subst_args(n.args[1:], m, {})
        levels.append((d, to_bool(g)))
        n = x
    return levels, n


def merge_nests(d):
    """one effect in several exclusive cases within the same loops"""
    sk = {}
    for n in d:
        if n.op == 'foreach':
            levels, x = nest(n)
            key = (tuple(l[0] for l in levels), x, len(levels))
            sk.setdefault(key, []).append((n, levels))
    for (doms, x, k), ns in sk.items():
        if len(ns) < 2:
            continue
        full = []
        for n, levels in ns:
            g = d[n][0]
            for l in levels:
                g = b_and(g, l[1])
            full.append(g)
        if any(T.sat_path(b_and(full[i], full[j]), {}) is not None
               for i in range(len(ns)) for j in range(i)):
            continue
        gs = []
        acc = [d[n][0] for n, _ in ns]
        for i in range(k):
            prev = FALSE
            for g in acc:
                prev = b_or(prev, g)
            acc = [b_and(g, levels[i][1]) for g, (_, levels) in zip(acc, ns)]
            cur = FALSE
            for g in acc:
                cur = b_or(cur, g)
            gs.append(T.b_restrict(cur, prev))
        node = x
        for i in reversed(range(k)):
            h = 1 + max(y.height for y in (doms[i], gs[i], node))
            m = {N('cv', 'nest', i): N('bv', h)}
            for j in range(12):
                m[N('cv', 'nestm', i, j)] = N('mub', h, j)
            node = N('foreach', h, *T._subst_args((doms[i], gs[i], node), m,
                                                  {}))
        g = FALSE
        for n, _ in ns:
            g = b_or(g, d[n][0])
        first = min(ns, key=lambda t: d[t[0]][2])[0]
        info = [g] + d[first][1:]
        for n, _ in ns:
            del d[n]
        d[node] = info
    return d


def split_node(g, n):
    """expose conditions at the top of effects: [(guard, node)]"""
    return [(g, n)]


def compare_events(c, ref, cur, out, ok=TRUE):
    er, ec = group(ref.events), group(cur.events)
    matched = []
    for n in list(er):
        if n in ec:
            g1, l1, o1 = er[n]
            g2, l2, o2 = ec[n]
            if c.same_when(g1, g2, n):
                matched.append((n, o1, o2, l2, g1))
                del er[n], ec[n]
    # equal nodes under differing spelling
    for n in sorted(er, key=lambda x: er[x][2]):
        g1, l1, o1 = er[n]
        h = head(n)
        best = None
        for m in sorted(ec, key=lambda x: ec[x][2]):
            if head(m) != h:
                continue
            g2, l2, o2 = ec[m]
            if c.same_when(g1, g2, n) and (c.eq(strip_occ(n), strip_occ(m)) or
                                  eq_under(c, b_and(g1, ok), strip_occ(n),
                                           strip_occ(m))):
                best = m
                break
        if best is not None:
            matched.append((n, o1, ec[best][2], ec[best][1], g1))
            del er[n], ec[best]
    # case distinctions made inside or outside of the effect
    if er and ec:
        cover(c, er, ec, matched)
    for n in er:
        g1, l1, o1 = er[n]
        cand = [m for m in ec if head(m) == head(n)]
        d = Diff('effect-missing', cur.func.line,
                 'effect no longer happens: %s' % show(n)[:400], n,
                 cand[0] if cand else None, g1)
        if cand:
            m = cand[0]
            d.kind = 'effect'
            d.line = ec[m][1]
            d.cur = m
            d.cguard = ec[m][0]
            d.text = 'effect differs: %s (when %s) -> %s (when %s)' % (
                show(n)[:300], show(g1)[:200], show(m)[:300],
                show(ec[m][0])[:200])
            del ec[m]
        out.append(d)
    for m in ec:
        out.append(Diff('effect-new', ec[m][1], 'additional effect: %s '
                        '(when %s)' % (show(m)[:400], show(ec[m][0])[:200]),
                        None, m, ec[m][0]))
    order_check(matched, cur, out)


def cover(c, er, ec, matched):
    """for each head: compare the effects as a case table"""
    heads = {}
    for n in er:
        heads.setdefault(head(n), [[], []])[0].append(n)
    for m in ec:
        heads.setdefault(head(m), [[], []])[1].append(m)
    none = N('noevent')
    for h, (ns, ms) in heads.items():
        if not ns or not ms or len(ns) + len(ms) > 8:
            continue

        def table(d, xs):
            r = none
            for x in sorted(xs, key=lambda y: -d[y][2]):
                r = T.ite(d[x][0], strip_occ(x), r)
            return r
        # only valid if the guards within one side are exclusive
        def exclusive(d, xs):
            for i, x in enumerate(xs):
                for y in xs[i + 1:]:
                    if T.sat_path(b_and(d[x][0], d[y][0]), {}) is not None:
                        return False
            return True
        if not (exclusive(er, ns) and exclusive(ec, ms)):
            continue
        if c.eq(table(er, ns), table(ec, ms)):
            for n in ns:
                matched.append((n, er[n][2], min(ec[m][2] for m in ms),
                                ec[ms[0]][1], er[n][0]))
                del er[n]
            for m in ms:
                del ec[m]
    if er and ec:
        cover_nests(c, er, ec, matched)


def nest_cases(d):
    """effects within the same loops: {(domains, head): [(node, guard, x)]}"""
    out = {}
    for n in sorted(d, key=lambda y: d[y][2]):
        if n.op != 'foreach':
            continue
        levels, x = nest(n)
        g = d[n][0]
        for l in levels:
            g = b_and(g, l[1])
        out.setdefault((tuple(l[0] for l in levels), head(x)), []).append(
            (n, g, strip_occ(x)))
    return {k: v for k, v in out.items() if not any(
        T.sat_path(b_and(a[1], b[1]), {}) is not None
        for i, a in enumerate(v) for b in v[:i])}


def cover_nests(c, er, ec, matched):
    """effects within loops as a case table of one pass"""
    none = N('noevent')
    ref, cur = nest_cases(er), nest_cases(ec)
    for (doms, h), ns in ref.items():
        for (doms2, h2), ms in list(cur.items()):
            if h != h2 or len(doms) != len(doms2) or \
                    len(ns) + len(ms) > 12 or not all(
                        c.eq(x, y) for x, y in zip(doms, doms2)):
                continue
            a = b = none
            for n, g, x in ns:
                a = T.ite(g, x, a)
            for m, g, x in ms:
                b = T.ite(g, x, b)
            if not c.eq(a, b):
                continue
            for n, g, x in ns:
                matched.append((n, er[n][2], min(ec[m[0]][2] for m in ms),
                                ec[ms[0][0]][1], er[n][0]))
                del er[n]
            for m, g, x in ms:
                del ec[m]
            del cur[doms2, h2]
            break


def receiver(n):
    while n.op in ('occ', 'fin', 'ctxcall'):
        n = n.args[0]
    if n.op == 'call' and n.args[0].op == 'meth' and n.args[1]:
        return n.args[1][0]
    if n.op in ('setitem', 'delitem', 'inplace', 'delattr'):
        return n.args[1] if n.op == 'inplace' else n.args[0]
    return None


def conflict(a, b):
    a0, b0 = strip(a), strip(b)
    if a0.op in ('yield', 'yieldfrom') and b0.op in ('yield', 'yieldfrom'):
        return True
    if a0.op == 'foreach' or b0.op == 'foreach':
        x = strip(a0.args[3]) if a0.op == 'foreach' else a0
        y = strip(b0.args[3]) if b0.op == 'foreach' else b0
        return conflict(x, y)
    fa, fb = is_fs(a0), is_fs(b0)
    if fa and fb:
        return True
    ra, rb = receiver(a0), receiver(b0)
    if ra is not None and ra is rb and ra is not N('param', 0):
        return True
    return False


def together(x, y):
    """can both effects happen in one execution (of one iteration)?"""
    if T.sat_path(b_and(x[4], y[4]), {}) is None:
        return False
    la, lb = nest(strip(x[0]))[0], nest(strip(y[0]))[0]
    g = b_and(x[4], y[4])
    for (da, ga), (db, gb) in zip(la, lb):
        if da is not db:
            break
        g = b_and(g, b_and(ga, gb))
        if T.sat_path(g, {}) is None:
            return False
    return True


def strip(n):
    while n.op in ('occ', 'fin', 'ctxcall', 'enter'):
        n = n.args[0]
    return n


FS = ('open', 'os.makedirs', 'os.remove', 'os.rename', 'os.unlink',
      'os.replace', 'os.mkdir', 'os.rmdir', 'pickle.dump', 'numpy.save')
FSM = ('dump', 'write', 'save', 'save_weights', 'save_training_settings',
       '_save', 'restore', 'load', 'to_hdf')


def is_fs(n):
    if n.op != 'call':
        return False
    f = n.args[0]
    if f.op == 'ext':
        return f.args[0] in FS or f.args[0].startswith('shutil.') or \
            f.args[0].startswith('numpy.random.')
    return f.op == 'meth' and f.args[0] in FSM


def order_check(matched, cur, out):
    ms = sorted(matched, key=lambda t: t[1])
    for i in range(len(ms)):
        for j in range(i + 1, len(ms)):
            if ms[i][2] > ms[j][2] and conflict(ms[i][0], ms[j][0]) and \
                    together(ms[i], ms[j]):
                out.append(Diff('order', ms[i][3],
                                'effects swapped: %s now after %s' % (
                                    show(ms[i][0])[:200],
                                    show(ms[j][0])[:200]),
                                ms[i][0], ms[j][0]))
                return


# -------------------------------------------------------------- explanation
def explain(c, a, b, lits=None, depth=0):
    """minimal differing pairs [(a, b, lits)]"""
    lits = lits or {}
    if depth > 60:
        return [(a, b, lits)]
    try:
        if c.eq(a, b, lits):
            return []
    except Budget:
        return [(a, b, lits)]
    if T.is_boolean(a) and T.is_boolean(b):
        return [(a, b, lits)]
    for x in (a, b):
        if x.op == 'ite':
            at = x.args[0].args[0]
            for v in (True, False):
                l2 = dict(lits)
                l2[at] = v
                if at in lits and lits[at] != v or not T.consistent(l2):
                    continue
                a2, b2 = T.cofactor(a, at, v, {}), T.cofactor(b, at, v, {})
                try:
                    same = c.eq(a2, b2, l2)
                except Budget:
                    return [(a, b, lits)]
                if not same:
                    return explain(c, a2, b2, l2, depth + 1)
            return [(a, b, lits)]
    if a.op == b.op:
        if a.op == 'poly':
            pa, pb = T.to_poly(a), T.to_poly(b)
            la = {m: k for m, k in pa.items() if pb.get(m) != k}
            lb = {m: k for m, k in pb.items() if pa.get(m) != k}
            if len(la) == 1 and len(lb) == 1:
                (m1, c1), (m2, c2) = list(la.items())[0], \
                    list(lb.items())[0]
                if c1 == c2:
                    r1 = [f for f in m1 if f not in m2]
                    r2 = [f for f in m2 if f not in m1]
                    if len(r1) == 1 and len(r2) == 1 and \
                            r1[0][1] == r2[0][1]:
                        return explain(c, r1[0][0], r2[0][0], lits,
                                       depth + 1)
            return [(T.from_poly(la), T.from_poly(lb), lits)]
        if a.op in T.BINDERS:
            xa, xb = c.open(a, b)
        else:
            xa, xb = a.args, b.args
        if a.op == 'dict':
            da, db = dict(a.args[0]), dict(b.args[0])
            if set(da) == set(db):
                out = []
                for k in da:
                    out += explain(c, da[k], db[k], lits, depth + 1)
                return out or [(a, b, lits)]
            return [(a, b, lits)]
        fa, fb = flat(xa), flat(xb)
        if len(fa) == len(fb):
            out = []
            for x, y in zip(fa, fb):
                if isinstance(x, Node) and isinstance(y, Node):
                    if x is not y:
                        out += explain(c, x, y, lits, depth + 1)
                elif x != y:
                    return [(a, b, lits)]
            return out or [(a, b, lits)]
    return [(a, b, lits)]


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, tuple):
            out.append(len(x))
            out.extend(flat(x))
        else:
            out.append(x)
    return out


# ----------------------------------------------------- position-wise descent
CONDITIONAL = ('ite', 'bite', 'fix', 'until', 'last', 'lam', 'exc',
               'excval', 'undef')


def reach(n):
    seen = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(T._iter_nodes(x.args))
    return seen


def region(a, other, budget=80):
    """(nodes of a outside of the shared ones, shared frontier) or None when
    the region is conditional or large"""
    seen, edge = set(), set()
    todo = [a]
    while todo:
        x = todo.pop()
        if x in seen or x in edge:
            continue
        if x in other and x.args and x.op not in ('num', 'str'):
            edge.add(x)
            continue
        seen.add(x)
        if len(seen) > budget or x.op in CONDITIONAL:
            return None
        todo.extend(T._iter_nodes(x.args))
    return edge


def leaf(c, a, b):
    """True: equal, False: differ in a condition-free region, None: open"""
    ra, rb = reach(a), reach(b)
    ea = region(a, rb)
    if ea is None:
        return None
    eb = region(b, ra)
    if eb is None:
        return None
    m = {x: fresh('s') for x in ea | eb}
    m.pop(a, None)
    m.pop(b, None)
    a2, b2 = T.subst(a, m), T.subst(b, m)
    try:
        return Cmp(4000, 5).eq(a2, b2)
    except Budget:
        return None


def updates(a, b):
    """a is b with some entries stored"""
    n = 0
    while a.op in ('aupd', 'dupd') and n < 6:
        a = a.args[0]
        n += 1
        if a is b:
            return True
    return False


def aligned(c, a, b, out, seen):
    """differing leaf pairs of two terms of the same shape; False when the
    shapes do not line up"""
    if a is b:
        return True
    if (a, b) in seen:
        return seen[a, b]
    r = _aligned(c, a, b, out, seen)
    seen[a, b] = r
    return r


def _aligned(c, a, b, out, seen):
    if len(out) > 60 or len(seen) > 20000:
        return False
    if a.op == b.op and a.op not in ('num', 'str', 'param', 'ext', 'glob',
                                     'cv', 'bvar', 'bv', 'lv', 'mub', 'ref',
                                     'fconst', 'bytes', 'mod', 'clo'):
        if a.op == 'poly':
            pa, pb = T.to_poly(a), T.to_poly(b)
            la = {m: k for m, k in pa.items() if pb.get(m) != k}
            lb = {m: k for m, k in pb.items() if pa.get(m) != k}
            if len(la) == 1 and len(lb) == 1 and list(la.values()) == list(
                    lb.values()):
                m1, m2 = list(la)[0], list(lb)[0]
                r1 = [f for f in m1 if f not in m2]
                r2 = [f for f in m2 if f not in m1]
                if len(r1) == 1 and len(r2) == 1 and r1[0][1] == r2[0][1]:
                    return aligned(c, r1[0][0], r2[0][0], out, seen)
        else:
            xa, xb = a.args, b.args
            if a.op in T.BINDERS:
                xa, xb = c.open(a, b)
            if a.op == 'dict':
                da, db = dict(xa[0]), dict(xb[0])
                if set(da) == set(db):
                    return all([aligned(c, da[k], db[k], out, seen)
                                for k in da])
            fa, fb = flat(xa), flat(xb)
            if len(fa) == len(fb) and all(
                    isinstance(x, Node) == isinstance(y, Node) and (
                        isinstance(x, Node) or x == y)
                    for x, y in zip(fa, fb)):
                k = len(out)
                bad = [(x, y) for x, y in zip(fa, fb) if x is not y]
                if bad and all(aligned(c, x, y, out, seen)
                               for x, y in bad):
                    return True
                del out[k:]
    r = leaf(c, a, b)
    if r is None and (updates(a, b) or updates(b, a)):
        r = False
    if r is False:
        out.append((a, b))
        return True
    return r is True


def aligned_compare(ref, cur):
    """differences found without case distinctions: only terms which line up
    everywhere except for a few condition-free places are reported"""
    c = Cmp(60000)
    pairs = [('result', cur.func.line, ref.ret, cur.ret),
             ('raises', cur.func.line, ref.raises, cur.raises)]
    fr, fc = merge_finals(ref.finals), merge_finals(cur.finals)
    if set(fr) == set(fc):
        pairs += [('store', cur.func.line, fr[k], fc[k]) for k in fr]
    er, ec = group(ref.events), group(cur.events)
    a = [e for e in sorted(er, key=lambda n: er[n][2])]
    b = [e for e in sorted(ec, key=lambda n: ec[n][2])]
    if len(a) == len(b) and [head(x) for x in a] == [head(x) for x in b]:
        for x, y in zip(a, b):
            pairs.append(('effect', ec[y][1], x, y))
            pairs.append(('effect', ec[y][1], er[x][0], ec[y][0]))
    out = []
    for kind, line, x, y in pairs:
        if x is y:
            continue
        leaves = []
        if aligned(c, x, y, leaves, {}) and leaves:
            out.append(Diff(kind, line, '%s differs: %s -> %s' % (
                kind, show(leaves[0][0])[:300], show(leaves[0][1])[:300]),
                leaves[0][0], leaves[0][1]))
    return out
