"""Congruence with case distinction: two canonical terms denote the same value if
they coincide after every consistent assignment of the tests occurring in them.
Only ever used to recognise equal values, never to tell values apart."""
from .terms import *
from .terms import BINDERS, BOOL_OPS, _mapargs
from .arrays import index
from . import arrays


_free = {}


def free_bv(t):
    """levels of the bound variables of enclosing binders that t mentions"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            f = free_bv(x)
            if f:
                r |= f
        return r
    if not isinstance(t, Term) or not t.lvl:
        return frozenset()
    r = _free.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset([t.args[0]])
        else:
            r = free_bv(t.args)
            if t.op in BINDERS:
                r = frozenset(l for l in r if l < t.args[2])
        _free[t] = r
    return r


def whole(t):
    return t.op in BOOL_OPS and not free_bv(t)


class Same:
    def __init__(self, limit=1500, depth=9):
        self.limit = limit
        self.depth = depth
        self.n = 0
        self.memo = {}

    def __call__(self, x, y):
        arrays.RECANON[0] = True
        try:
            return self.same(parity(x), parity(y), self.depth)
        except (TooBig, RecursionError):
            return False
        finally:
            arrays.RECANON[0] = False

    def same(self, x, y, depth):
        if x is y:
            return True
        if not isinstance(x, Term) or not isinstance(y, Term):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return all(self.same(a, b, depth) for a, b in zip(x, y))
            return x == y
        k = (x, y, depth)
        r = self.memo.get(k)
        if r is None:
            self.n += 1
            if self.n > self.limit:
                raise TooBig()
            self.memo[k] = False
            r = self.memo[k] = self._same(x, y, depth)
        return r

    def _same(self, x, y, depth):
        if x.op == y.op and x.op != 'poly' and len(x.args) == len(y.args):
            if x.op in BINDERS:
                if self.binders(x, y, depth):
                    return True
            elif x.op not in ('sym', 'str', 'var', 'bv', 'type') and self.same(x.args, y.args, depth):
                return True
        for a, b in ((x, y), (y, x)):
            if a.op == 'tup' and b.op not in ('poly', 'tup', 'none', 'str', 'sym') and a.args:
                if all(self.same(p, index(b, (const(k),)), depth) for k, p in enumerate(a.args)):
                    return True
        if x.op == 'poly' or y.op == 'poly':
            if self.polys(x, y, depth):
                return True
        u, v = unfold(x), unfold(y)
        if u is not x or v is not y:
            return self.same(u, v, depth)
        if depth <= 0:
            return False
        a = self.pick(x, y)
        if a is None:
            return False
        for v in (ONE, ZERO):
            mp = assumption(a, v)
            if not self.same(subst(x, mp), subst(y, mp), depth - 1):
                return False
        return True

    def binders(self, x, y, depth):
        if x.op not in ('sum', 'prodn', 'tab') and x.args[3:] != y.args[3:]:
            return False
        try:
            v1, p1 = BINDERS[x.op][0](x)
            v2, p2 = BINDERS[y.op][0](y)
        except Exception:
            return False
        if len(v1) != len(v2) or any(a.args[2] != b.args[2] for a, b in zip(v1, v2)):
            return False
        mp = dict(zip(v2, v1))
        memo = {}
        p2 = tuple(_mapargs(p, lambda t: subst(t, mp)) for p in p2)
        return self.same(p1, p2, depth)

    def polys(self, x, y, depth):
        d = sub(x, y)
        if d is ZERO:
            return True
        # sums over the same range: compare the summands
        groups = {}
        rest = {}
        for m, c in pitems(d):
            s = [a for a, e in m if a.op == 'sum' and e == 1]
            if len(s) == 1:
                other = tuple((a, e) for a, e in m if a is not s[0])
                groups.setdefault((other, s[0].args[0], s[0].args[2] if len(s[0].args) > 2 else None), []).append((c, s[0]))
            else:
                rest[m] = c
        if groups and not rest:
            ok = True
            for g in groups.values():
                vs = None
                body = ZERO
                for c, s in g:
                    v, p = BINDERS['sum'][0](s)
                    if vs is None:
                        vs = v
                        q = p
                    else:
                        q = tuple(_mapargs(z, lambda t, mp=dict(zip(v, vs)): subst(t, mp)) for z in p)
                    body = add(body, scale(q[1], c))
                if len(g) < 2 or not self.same(body, ZERO, depth):
                    ok = False
                    break
            if ok:
                return True
        # atoms that are equal although written differently
        ax = {a for m, c in pitems(x) for a, e in m}
        ay = {a for m, c in pitems(y) for a, e in m}
        mp = {}
        for b in sorted(ay - ax):
            for a in sorted(ax - ay):
                if a.op == b.op and self.same(a, b, min(depth, 3)):
                    mp[b] = a
                    break
        if mp and len(ay - ax) <= 12:
            r = ZERO
            for m, c in pitems(y):
                z = const(c)
                for a, e in m:
                    z = mul(z, powi(mp.get(a, a), e))
                r = add(r, z)
            if r is x:
                return True
            if r is not y:
                return self.same(x, r, depth)
        return False

    def pick(self, x, y):
        """a test both can be split on: the one met first near the top"""
        for limit in (60, 4000):
            best = {}
            for t in (x, y):
                seen = set()
                st = [t]
                k = 0
                while st and k < limit:
                    w = st.pop(0)
                    if isinstance(w, tuple):
                        st[0:0] = list(w)
                        continue
                    if not isinstance(w, Term) or w in seen:
                        continue
                    seen.add(w)
                    k += 1
                    if whole(w):
                        best[w] = best.get(w, 0) + 1
                        # a test that contains tests: split on those first
                    st.extend(w.args)
            if best:
                inner = {w: not any(z is not w and whole(z) for z in walk(w)) for w in best}
                cand = [w for w in best if inner[w]] or list(best)
                return max(cand, key=lambda w: (best[w], -w.dig))
        return None


def unfold(t):
    """smaller/larger of two written as a selection"""
    if t.op in ('min', 'max'):
        a, b = t.args[0][0], t.args[0][1:]
        b = b[0] if len(b) == 1 else mk(t.op, b)
        if b.op == t.op:
            b = unfold(b)
        c = lt0(sub(a, b))
        return add(mul(c, sub(a, b)), b) if t.op == 'min' else add(mul(c, sub(b, a)), a)
    if t.op == 'poly' and any(a.op in ('min', 'max') for m, c in pitems(t) for a, e in m):
        r = ZERO
        for m, c in pitems(t):
            z = const(c)
            for a, e in m:
                z = mul(z, powi(unfold(a) if a.op in ('min', 'max') else a, e))
            r = add(r, z)
        return r
    return t


def parity(t):
    """(-1)^k == 1  is  (1 + (-1)^k)/2"""
    mp = {}
    for w in walk(t):
        if w.op == 'eq':
            its = pitems(w.args[0])
            d = dict(its)
            c = d.get((), 0)
            if len(its) == 2 and c:
                m = [m for m, _ in its if m != ()][0]
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sgn' and abs(d[m]) == abs(c):
                    mp[w] = scale(add(ONE, scale(m[0][0], -1 if d[m] == c else 1)), Fraction(1, 2))
    return subst(t, mp) if mp else t


def assumption(a, v):
    mp = {a: v}
    if v is ONE and a.op == 'eq':
        # the equation determines one of its unknowns
        p = a.args[0]
        its = pitems(p)
        for m, c in its:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in ('sym', 'attr', 'var', 'len', 'index', 'app'):
                u = m[0][0]
                rest = mkpoly({k: -z / c for k, z in its if k != m})
                if not any(w is u for w in walk(rest)):
                    mp[u] = rest
                    return mp
    if v is ONE and a.op in ('lt', 'eq') and len(a.args) == 1:
        p = a.args[0]
        n = neg(p)
        for f in (lt0, eq0):
            for q in (p, n):
                t = f(q)
                if t is not a and t.op in ('lt', 'eq') and not (a.op == t.op):
                    mp[t] = ZERO
                elif t is not a and t.op == 'lt' == a.op:
                    mp[t] = ZERO
    return mp
