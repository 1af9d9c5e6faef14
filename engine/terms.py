"""Hash-consed terms with a canonical ring normal form.

Every value the analysis computes is a Term.  Sums and products live in one
commutative ring over atoms with rational coefficients; conditions are 0/1
valued atoms of the same ring (idempotent), so that guards and guarded values
share one normal form:   and = product,  not x = 1 - x,
ite(c,a,b) = c*a + (1-c)*b.
"""
from fractions import Fraction
from itertools import permutations, count

MAXTERMS = 6000


class TooBig(Exception):
    pass


# deterministic work budget: [steps so far, limit]
WORK = [0, 1 << 62]


def budget(limit):
    WORK[0] = 0
    WORK[1] = limit


class Term:
    __slots__ = ('op', 'args', 'dig', 'lvl', 'fv')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.dig < o.dig


_table = {}


def _dig_of(x):
    """comparable structural key (terms are hash-consed: creation order is a key)"""
    if isinstance(x, Term):
        return (0, x.dig)
    if isinstance(x, tuple):
        return (1, tuple(_dig_of(y) for y in x))
    return (2, repr(x))


_serial = count(1)
_EMPTY = frozenset()


def mk(op, *args):
    key = (op, args)
    WORK[0] += 1
    if WORK[0] > WORK[1]:
        raise TooBig()
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.dig = next(_serial)
    lvl = 0
    fv = _EMPTY
    if op == 'var':
        fv = frozenset([t])
    elif op == 'bv':
        lvl = args[0]

    def walk(x):
        nonlocal lvl, fv
        if isinstance(x, Term):
            if x.lvl > lvl:
                lvl = x.lvl
            if x.fv:
                fv = fv | x.fv if fv else x.fv
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for a in args:
        walk(a)
    t.lvl = lvl
    t.fv = fv
    _table[key] = t
    return t


_fresh = count(1)


def fresh(hint='v', isint=True):
    return mk('var', next(_fresh), hint, isint)


def sym(name):
    return mk('sym', name)


# ----------------------------------------------------------------- ring
def const(c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return mk('poly', (((), c),))


ZERO = mk('poly', ())
ONE = mk('poly', (((), Fraction(1)),))
IMAG = mk('I')
NONE = mk('none')


def is_const(t):
    return t.op == 'poly' and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def const_value(t):
    """Fraction or None"""
    if t.op != 'poly':
        return None
    if not t.args[0]:
        return Fraction(0)
    if len(t.args[0]) == 1 and t.args[0][0][0] == ():
        return t.args[0][0][1]
    return None


def pdict(t):
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def pitems(t):
    if t.op == 'poly':
        return t.args[0]
    return ((((t, 1),), Fraction(1)),)


def _mono_key(m):
    return tuple((a.dig, e) for a, e in m)


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(items) > MAXTERMS:
        raise TooBig()
    items.sort(key=lambda mc: (len(mc[0]), _mono_key(mc[0])))
    return mk('poly', tuple(items))


BOOL_OPS = {'lt', 'eq', 'bit', 'isnone', 'bool', 'isinst', 'hasattr', 'in', 'truth',
            'raises', 'same', 'exists', 'boolsym'}


def is_bool_atom(a):
    return a.op in BOOL_OPS


def is_bool(t):
    if is_bool_atom(t):
        return True
    if t.op != 'poly':
        return False
    for m, c in t.args[0]:
        for a, e in m:
            if not is_bool_atom(a) or e != 1:
                return False
    v = const_value(t)
    if v is not None:
        return v in (0, 1)
    atoms = {a for m, c in t.args[0] for a, e in m}
    if len(atoms) > 8:
        return True
    # check 0/1 valued
    atoms = list(atoms)
    for bits in range(1 << len(atoms)):
        on = {a for k, a in enumerate(atoms) if bits >> k & 1}
        s = sum(c for m, c in t.args[0] if all(a in on for a, e in m))
        if s not in (0, 1):
            if len(on) > 1 and _bool_conflicts([(a, 1) for a in on if a.op in ('lt', 'eq')]) is None:
                continue
            return False
    return True


def mono_mul(m1, m2):
    """returns (coef, mono) or (0, ())"""
    if not m1:
        return 1, m2
    if not m2:
        return 1, m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    coef = 1
    out = []
    nb = 0
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'I':
            e %= 4
            if e >= 2:
                coef = -coef
                e -= 2
            if e:
                out.append((a, 1))
            continue
        if is_bool_atom(a):
            e = 1
            if a.op in ('lt', 'eq', 'isinst'):
                nb += 1
        elif a.op == 'sgn':
            e %= 2
            if not e:
                continue
        out.append((a, e))
    if nb >= 2:
        r = _bool_conflicts(out)
        if r is None:
            return 0, ()
        out = r
    out.sort(key=lambda ae: ae[0].dig)
    return coef, tuple(out)


EXCLUSIVE = []      # two classes no object is an instance of both of


def _bool_conflicts(lst):
    cmpa = [a for a, e in lst if a.op in ('lt', 'eq')]
    drop = set()
    inst = [a for a, e in lst if a.op == 'isinst']
    for i, a in enumerate(inst):
        for b in inst[:i]:
            if a.args[0] is b.args[0] and EXCLUSIVE and EXCLUSIVE[0](a.args[1], b.args[1]):
                return None
    for i in range(len(cmpa)):
        for j in range(len(cmpa)):
            if i == j or cmpa[i] in drop or cmpa[j] in drop:
                continue
            a, b = cmpa[i], cmpa[j]
            d = const_value(sub(b.args[0], a.args[0]))  # b.p = a.p + d
            if a.op == 'lt' and b.op == 'lt':
                if d is not None and d > 0:       # b stronger: p+d<0 -> p<0
                    drop.add(a)
                    continue
                s = const_value(add(b.args[0], a.args[0]))   # b.p = s - a.p ; need a.p<0 and a.p > s
                if s is not None:
                    if s >= 0 or (s >= -1 and is_int(a.args[0])):
                        return None
            elif a.op == 'eq' and b.op == 'lt':
                if d is not None:
                    if d < 0:
                        drop.add(b)
                    else:
                        return None
                else:
                    s = const_value(add(b.args[0], a.args[0]))
                    if s is not None:
                        if s < 0:
                            drop.add(b)
                        else:
                            return None
            elif a.op == 'eq' and b.op == 'eq' and i < j:
                if d is not None and d != 0:
                    return None
                s = const_value(add(b.args[0], a.args[0]))
                if s is not None and s != 0:
                    return None
                # the same quantity compared with two different constants/strings
                if _distinct_eq(a, b):
                    return None
    return [(a, e) for a, e in lst if a not in drop]


def _eq_split(p):
    """x - 'str' -> (x, str)"""
    its = pitems(p)
    if len(its) == 2:
        ss = [(m, c) for m, c in its if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'str']
        oo = [(m, c) for m, c in its if not (len(m) == 1 and m[0][0].op == 'str')]
        if len(ss) == 1 and len(oo) == 1:
            return oo[0][0], ss[0][0]
    return None


def _distinct_eq(a, b):
    x, y = _eq_split(a.args[0]), _eq_split(b.args[0])
    return x and y and x[0] == y[0] and x[1] != y[1]


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = pdict(a)
    for m, c in pitems(b):
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def neg(a):
    return mkpoly({m: -c for m, c in pitems(a)})


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    k = Fraction(k)
    return mkpoly({m: c * k for m, c in pitems(a)})


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    ia, ib = pitems(a), pitems(b)
    if len(ia) * len(ib) > MAXTERMS * 4:
        raise TooBig()
    WORK[0] += len(ia) * len(ib)
    d = {}
    for m1, c1 in ia:
        for m2, c2 in ib:
            k, m = mono_mul(m1, m2)
            if k:
                d[m] = d.get(m, 0) + k * c1 * c2
    return mkpoly(d)


def prod(*ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def total(*ts):
    r = ZERO
    for t in ts:
        r = add(r, t)
    return r


PARTS = []          # real and imaginary part, set by extern


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return recip(powi(a, -n))
    its = pitems(a)
    if n in (2, 4) and a.op == 'abs' and PARTS and len(pitems(a.args[0])) <= 6:
        x, y = PARTS[0](a.args[0])
        return powi(add(mul(x, x), mul(y, y)), n // 2)
    if len(its) == 1:
        m, c = its[0]
        r = ONE
        if n <= 6:
            for _ in range(n):
                r = mul(r, a)
            return r
    if n <= 4 and len(its) <= 12:
        r = ONE
        for _ in range(n):
            r = mul(r, a)
        return r
    return mkpoly({((paren(a), n),): Fraction(1)})


def paren(a):
    """poly as an atom"""
    if a.op != 'poly':
        return a
    return mk('par', a)


def recip(a):
    its = pitems(a)
    if not its:
        return mk('app', 'recip0')
    if len(its) == 1:
        m, c = its[0]
        k = 1
        out = []
        for at, e in m:
            if at.op == 'I':
                k = -k
                out.append((at, 1))
            elif at.op == 'par':
                out.append((at, -e))
            elif is_bool_atom(at):
                out.append((mk('par', at), -e))
            elif at.op == 'sgn':
                out.append((at, e))
            else:
                out.append((at, -e))
        # normalise par with positive exponents back into ring
        r = mkpoly({tuple(sorted([o for o in out if not (o[0].op == 'par' and o[1] > 0)],
                                 key=lambda ae: ae[0].dig)): Fraction(k) / c})
        for at, e in out:
            if at.op == 'par' and e > 0:
                r = mul(r, powi(at.args[0], e))
        return r
    # content: leading coefficient 1
    lead = its[0][1] if its[0][0] != () or len(its) == 1 else its[1][1]
    # also pull out a common monomial factor
    p = scale(a, 1 / lead)
    # pure imaginary unit factor
    if all(any(x.op == 'I' for x, e in m) for m, c in pitems(p)):
        q = mul(p, neg(IMAG))          # p = I*q
        lead2 = pitems(q)[0][1] if pitems(q)[0][0] != () else pitems(q)[1][1]
        q = scale(q, 1 / lead2)
        return scale(mul(neg(IMAG), mkpoly({((mk('par', q), -1),): Fraction(1)})), 1 / (lead * lead2))
    common = None
    for m, c in pitems(p):
        s = {x: e for x, e in m if e > 0 and not is_bool_atom(x) and x.op not in ('I', 'sgn')}
        if common is None:
            common = s
        else:
            common = {x: min(e, s[x]) for x, e in common.items() if x in s}
        if not common:
            break
    if common:
        fac = tuple(sorted(((x, -e) for x, e in common.items()), key=lambda ae: ae[0].dig))
        f = mkpoly({fac: Fraction(1)})
        return scale(mul(f, mkpoly({((mk('par', mul(p, f)), -1),): Fraction(1)})), 1 / lead)
    return mkpoly({((mk('par', p), -1),): 1 / lead})


def div(a, b):
    v = const_value(b)
    if v is not None and v != 0:
        return scale(a, 1 / v)
    if a is b and not is_const(a):
        return ONE
    # exact cancellation a = k*b
    ib = pitems(b)
    if len(ib) > 1:
        ia = pitems(a)
        if len(ia) == len(ib):
            da = dict(ia)
            ks = set()
            for m, c in ib:
                if m in da:
                    ks.add(da[m] / c)
                else:
                    ks = set()
                    break
            if len(ks) == 1:
                return const(ks.pop())
    return mul(a, recip(b))


# ----------------------------------------------------------------- integers
INT_OPS = {'bit', 'lt', 'eq', 'len', 'sgn', 'isnone', 'bool', 'floordiv', 'mod', 'band', 'bxor',
           'bor', 'shl', 'shr', 'trunc', 'intsym', 'hasattr', 'isinst', 'in', 'truth'}
INT_ATTRS = {'size', 'd', 'ndim'}
INT_FUNCS = {'binsearch', 'edpyt.lookup.binsearch', 'Get_size', 'Get_rank'}


def is_int_atom(a):
    op = a.op
    if op in INT_OPS:
        return True
    if op == 'var':
        return bool(a.args[2])
    if op == 'bv':
        return bool(a.args[1])
    if op == 'attr':
        return a.args[1] in INT_ATTRS
    if op == 'index':
        b = a.args[0]
        if b.op == 'attr' and b.args[1] in ('shape', 'indptr', 'indices'):
            return True
        if b.op == 'sym' and b.args[0].split('.')[-1] in INT_BASES:
            return True
        return False
    if op == 'sum' or op == 'prod':
        return is_int(a.args[1])
    if op == 'sym':
        return a.args[0] in INT_SYMS
    if op == 'par':
        return is_int(a.args[0])
    if op == 'app':
        return a.args[0] in INT_FUNCS
    if op in ('min', 'max', 'abs'):
        return all(is_int(x) for x in a.args[0]) if op != 'abs' else is_int(a.args[0])
    if op == 'recat' or op == 'recval':
        return bool(a.args[-1] == 'int')
    if op in ('first', 'tripcount'):
        return True
    return False


INT_SYMS = {'n', 'pos', 'i', 'j', 'k', 'nup', 'ndw', 'nupI', 'ndwI', 'nupJ', 'ndwJ', 's', 'ispin',
            'dup', 'dwn', 'iup', 'idw', 'isct', 'ix_s', 'count', 'nnz', 'nmats', 'nbath', 'N', 'nzp',
            'size', 'rank', 'm', 'p', 'maxn', 'ND', 'nev', 'd', 'np', 'spin'}
INT_BASES = {'states', 'states_up', 'states_dw', 'up', 'dw', 'indptr', 'indices'}


def is_int(t):
    if t.op != 'poly':
        return is_int_atom(t)
    for m, c in t.args[0]:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not is_int_atom(a):
                return False
    return True


# ----------------------------------------------------------------- comparisons
def _lead(p):
    its = pitems(p)
    for m, c in its:
        if m != ():
            return m, c
    return None, None


def lt0(p):
    """p < 0 as a ring element"""
    v = const_value(p)
    if v is not None:
        return ONE if v < 0 else ZERO
    m, c = _lead(p)
    integer = is_int(p)
    p = scale(p, 1 / abs(c))
    if integer and not is_int(p):
        # keep primitive integer form
        p = _primitive(p)
    elif integer:
        p = _primitive(p)
    m, c = _lead(p)
    if c < 0:
        if integer:
            return sub(ONE, mk('lt', sub(neg(p), ONE)))      # p<0 <=> not(-p-1 < 0)
        q = neg(p)
        return sub(sub(ONE, mk('lt', q)), _eqatom(q))
    if integer and any(len(m) == 1 and m[0][0].op == 'recval' for m, c in pitems(p)):
        b = lower(p, {})
        if b is not None and b >= -1:
            return ZERO if b >= 0 else eq0(add(p, ONE))
    return _ltatom(p)


def lower(p, env, depth=0):
    """an integer below which an integer value never is, or None"""
    if depth > 12:
        return None
    bools = []
    for m, c in pitems(p):
        for a, e in m:
            if a.op in ('lt', 'eq') and a not in bools:
                bools.append(a)
    if bools:
        if len(bools) > 3:
            return None
        r = [lower(subst(p, {bools[0]: v}), env, depth + 1) for v in (ZERO, ONE)]
        return None if None in r else min(r)
    b = Fraction(0)
    for m, c in pitems(p):
        if m == ():
            b += c
            continue
        if c < 0 or len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a in env:
            l = env[a]
        elif a.op == 'len':
            l = 0
        elif a.op == 'shr' and const_value(a.args[1]) is not None and is_int(a.args[0]):
            l = lower(a.args[0], env, depth + 1)
            k = const_value(a.args[1])
            if l is not None:
                l = l // 2 ** int(k) if k >= 0 else None
        elif a.op == 'recval':
            l = _rec_lower(a, depth)
        else:
            l = None
        if l is None:
            return None
        b += c * l
    return b


def _rec_lower(a, depth):
    key = (a.args[0], a.args[1])
    if key not in _REC_LOWER:
        _REC_LOWER[key] = None
        vs, (inits, nexts) = _open_bind(a.args[0])
        env = {}
        for v, i in zip(vs, inits):
            env[v] = lower(i, {}, depth + 1)
        if None not in env.values():
            for _ in range(6):
                new = {v: lower(x, env, depth + 1) for v, x in zip(vs, nexts)}
                if None in new.values():
                    break
                new = {v: min(env[v], new[v]) for v in new}
                if new == {v: env[v] for v in new}:
                    _REC_LOWER[key] = new[vs[int(const_value(a.args[1]))]]
                    break
                env = new
    return _REC_LOWER[key]


_REC_LOWER = {}


def _ltatom(p):
    # s < s xor (1<<q)  is  not bit(s,q)
    its = pitems(p)
    if len(its) == 2:
        pos = [m for m, c in its if c == 1 and len(m) == 1 and m[0][1] == 1]
        ng = [m for m, c in its if c == -1 and len(m) == 1 and m[0][1] == 1]
        if len(pos) == 1 and len(ng) == 1:
            a, b = pos[0][0][0], ng[0][0][0]        # a - b < 0 : a < b
            r = _xor_order(a, b)
            if r is not None:
                return r
    return mk('lt', p)


def _xor_order(a, b):
    """a < b when one is the other with a single bit flipped"""
    if b.op == 'bxor':
        q = _single_flip(b, a)
        if q is not None:
            return sub(ONE, bit(a, q))
    if a.op == 'bxor':
        q = _single_flip(a, b)
        if q is not None:
            return bit(b, q)
    return None


def _single_flip(x, s):
    rest = [y for y in x.args[0] if y is not s]
    if len(rest) == 1 and len(x.args[0]) == 2 and rest[0].op == 'shl' and rest[0].args[0] is ONE:
        return rest[0].args[1]
    return None


def _primitive(p):
    from math import gcd
    den = 1
    for m, c in pitems(p):
        den = den * c.denominator // gcd(den, c.denominator)
    p = scale(p, den)
    g = 0
    for m, c in pitems(p):
        if m != ():
            g = gcd(g, abs(c.numerator))
    if g > 1:
        const_ok = all(c.numerator % g == 0 for m, c in pitems(p))
        if const_ok:
            p = scale(p, Fraction(1, g))
    return p


def _eqatom(p):
    return mk('eq', p)


def eq0(p):
    v = const_value(p)
    if v is not None:
        return ONE if v == 0 else ZERO
    its = pitems(p)
    # two different literals
    if len(its) <= 2 and all((m == () or (len(m) == 1 and m[0][0].op in ('str', 'none', 'type'))) for m, c in its):
        return ZERO
    # a single boolean times constants
    if is_bool(p):
        return sub(ONE, p)
    if is_bool(neg(p)):
        return add(ONE, p)
    q = sub(p, const(dict(its).get((), 0)))
    c0 = dict(its).get((), Fraction(0))
    if c0 != 0:
        # b - 1 == 0  for boolean b
        if is_bool(q) and c0 in (-1,):
            return q
        if is_bool(neg(q)) and c0 in (1,):
            return neg(q)
        if is_bool(q) or is_bool(neg(q)):
            if abs(c0) != 1:
                return ZERO
    m, c = _lead(p)
    p = scale(p, 1 / c)
    if is_int(p) or is_int(scale(p, 1)):
        pass
    p2 = _primitive(p)
    if is_int(p2):
        p = p2
        m, c = _lead(p)
        if c < 0:
            p = neg(p)
    # a == 0  for |a|, a**2
    its = pitems(p)
    if len(its) == 1:
        m, c = its[0]
        r = ONE
        # product is zero iff one factor is
        nz = ONE
        for a, e in m:
            if e < 0:
                continue
            if a.op == 'sgn' or a.op == 'I':
                continue
            if is_bool_atom(a):
                nz = mul(nz, a)
            elif a.op == 'abs':
                nz = mul(nz, sub(ONE, eq0(a.args[0])))
            elif len(m) == 1 and e == 1:
                nz = mul(nz, sub(ONE, _eqatom(a)))
            else:
                nz = mul(nz, sub(ONE, eq0(a)))
        return sub(ONE, nz)
    return _eqatom(p)


def lt(a, b):
    r = _xor_order(a, b)
    if r is not None:
        return r
    return lt0(sub(a, b))


def le(a, b):
    return sub(ONE, lt(b, a))


def eq(a, b):
    if a is b:
        return ONE
    return eq0(sub(a, b))


def truth(t):
    if is_bool(t):
        return t
    v = const_value(t)
    if v is not None:
        return ZERO if v == 0 else ONE
    if t.op == 'none':
        return ZERO
    if t.op == 'str':
        return ONE if t.args[0] else ZERO
    return sub(ONE, eq0(t))


def land(a, b):
    return mul(truth(a), truth(b))


def lnot(a):
    return sub(ONE, truth(a))


def lor(a, b):
    a, b = truth(a), truth(b)
    return sub(add(a, b), mul(a, b))


def ite(c, a, b):
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    r = _minmax_ite(c, a, b)
    if r is not None:
        return r
    return add(mul(c, a), mul(sub(ONE, c), b))


def _minmax_ite(c, a, b):
    if c.op != 'lt':
        n = sub(ONE, c)
        if n.op != 'lt':
            if c.op == 'poly' and len(c.args[0]) == 2:      # x <= y over the reals
                at = [m[0][0] for m, k in c.args[0] if len(m) == 1 and k == 1]
                if len(at) == 2 and {x.op for x in at} == {'lt', 'eq'} and at[0].args[0] is at[1].args[0]:
                    c = at[0] if at[0].op == 'lt' else at[1]
                else:
                    return None
            elif n.op == 'poly' and len(n.args[0]) == 2:    # y < x over the reals
                at = [m[0][0] for m, k in n.args[0] if len(m) == 1 and k == 1]
                if len(at) == 2 and {x.op for x in at} == {'lt', 'eq'} and at[0].args[0] is at[1].args[0]:
                    c, a, b = (at[0] if at[0].op == 'lt' else at[1]), b, a
                else:
                    return None
            else:
                return None
        else:
            c, a, b = n, b, a
    q = c.args[0]
    d = sub(a, b)
    if is_const(d) or a.op in ('str', 'none', 'tup') or b.op in ('str', 'none', 'tup'):
        return None
    for x, name in ((d, 'min'), (neg(d), 'max')):
        k = sub(q, x)
        if k is ZERO or (const_value(k) == -1 and is_int(d)):
            return minmax2(name, a, b)
        r = div(q, x)
        v = const_value(r)
        if v is not None and v > 0:
            return minmax2(name, a, b)
    return None


def minmax2(name, a, b):
    d = const_value(sub(a, b))
    if d is not None:
        return a if (d <= 0) == (name == 'min') else b
    items = []
    for x in (a, b):
        items += list(x.args[0]) if x.op == name else [x]
    return mk(name, tuple(sorted(set(items), key=lambda t: t.dig)))


# ----------------------------------------------------------------- bits, parity
def shl(a, b):
    v, w = const_value(a), const_value(b)
    if v is not None and w is not None and w >= 0 and w.denominator == 1 and v.denominator == 1:
        return const(int(v) << int(w))
    return mk('shl', a, b)


def shr(a, b):
    v, w = const_value(a), const_value(b)
    if w == 0:
        return a
    if v is not None and w is not None and w >= 0:
        return const(int(v) >> int(w))
    if w is not None and w > 0 and is_int(a):
        q = scale(a, Fraction(1, 2 ** int(w)))
        if is_int(q):
            return q
    if a.op == 'shr':
        return mk('shr', a.args[0], add(a.args[1], b))
    return mk('shr', a, b)


def bit(s, k):
    v = const_value(s)
    w = const_value(k)
    if v is not None and w is not None:
        return const((int(v) >> int(w)) & 1)
    if s.op == 'bxor':
        r = ZERO
        for x in s.args[0]:
            b = bit(x, k)
            r = sub(add(r, b), scale(mul(r, b), 2))
        return r
    if s.op == 'band':
        r = ONE
        for x in s.args[0]:
            r = mul(r, bit(x, k))
        return r
    if s.op == 'bor':
        r = ONE
        for x in s.args[0]:
            r = mul(r, sub(ONE, bit(x, k)))
        return sub(ONE, r)
    if s.op == 'shl' and s.args[0] is ONE:
        return eq(k, s.args[1])
    if s.op == 'shr':
        return bit(s.args[0], add(k, s.args[1]))
    if s.op == 'poly' and v is None:
        # guarded state: case split on booleans
        cs = cases(s)
        if cs is not None and len(cs) > 1:
            r = ZERO
            for g, x in cs:
                r = add(r, mul(g, bit(x, k)))
            return r
    return mk('bit', s, k)


def band(a, b):
    for x, y in ((a, b), (b, a)):
        v = const_value(y)
        if v == 1:
            if x.op == 'shr':
                return bit(x.args[0], x.args[1])
            if is_bool(x):
                return x
            return bit(x, ZERO)
        if v == 0:
            return ZERO
        if y.op == 'shl' and y.args[0] is ONE:      # s & (1<<k)
            return mul(bit(x, y.args[1]), y)
    if is_bool(a) and is_bool(b):
        return mul(a, b)
    va, vb = const_value(a), const_value(b)
    if va is not None and vb is not None:
        return const(int(va) & int(vb))
    items = []
    for x in (a, b):
        if x.op == 'band':
            items.extend(x.args[0])
        else:
            items.append(x)
    items = sorted(set(items), key=lambda t: t.dig)
    if len(items) == 1:
        return items[0]
    return mk('band', tuple(items))


def bxor(a, b):
    if is_bool(a) and is_bool(b):
        return sub(add(a, b), scale(mul(a, b), 2))
    va, vb = const_value(a), const_value(b)
    if va is not None and vb is not None:
        return const(int(va) ^ int(vb))
    items = []
    for x in (a, b):
        if x.op == 'bxor':
            items.extend(x.args[0])
        elif const_value(x) == 0:
            pass
        else:
            items.append(x)
    cnt = {}
    for x in items:
        cnt[x] = cnt.get(x, 0) + 1
    items = sorted([x for x, k in cnt.items() if k % 2], key=lambda t: t.dig)
    if not items:
        return ZERO
    if len(items) == 1:
        return items[0]
    return mk('bxor', tuple(items))


def bor(a, b):
    if is_bool(a) and is_bool(b):
        return lor(a, b)
    va, vb = const_value(a), const_value(b)
    if va is not None and vb is not None:
        return const(int(va) | int(vb))
    items = []
    for x in (a, b):
        if x.op == 'bor':
            items.extend(x.args[0])
        else:
            items.append(x)
    items = sorted(set(items), key=lambda t: t.dig)
    if len(items) == 1:
        return items[0]
    return mk('bor', tuple(items))


def sgn(p):
    """(-1)**p for an integer p"""
    r = ONE
    for m, c in pitems(p):
        if c.denominator != 1:
            return mk('app', 'sgnraw', p)
        if c.numerator % 2 == 0:
            continue
        if m == ():
            r = neg(r)
            continue
        t = mkpoly({m: Fraction(1)})
        if is_bool(t):
            r = mul(r, sub(ONE, scale(t, 2)))
        elif t.op == 'sum' and t.args[0] == ():
            r = mul(r, sgn(t.args[1]))
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'attr', 'index', 'len', 'call'):
            r = mul(r, sub(ONE, scale(bit(t, ZERO), 2)))
        else:
            r = mul(r, mk('sgn', t))
    return r


def mod(a, b):
    va, vb = const_value(a), const_value(b)
    if va is not None and vb:
        return const(va - (va // vb) * vb)
    if vb == 2 and is_int(a):
        return scale(sub(ONE, sgn(a)), Fraction(1, 2))
    if vb == 2 and all(c.denominator == 1 and all(e > 0 for _, e in m) for m, c in pitems(a)):
        return scale(sub(ONE, sgn(a)), Fraction(1, 2))
    if vb == 2:
        return bit(a, ZERO)
    return sub(a, mul(b, floordiv(a, b)))


def floordiv(a, b):
    va, vb = const_value(a), const_value(b)
    if vb == 1 and is_int(a):
        return a
    if va is not None and vb:
        return const(va // vb)
    # (b*k + r)//b ; exact multiples
    q = div(a, b)
    if is_int(q) and is_int(a) and is_int(b):
        return q
    if a is b:
        return ONE
    if vb is not None and vb.denominator == 1 and vb > 1 and int(vb) & (int(vb) - 1) == 0:
        return shr(a, const(int(vb).bit_length() - 1))
    return mk('floordiv', a, b)


# ----------------------------------------------------------------- cases
def cases(t, limit=5):
    """decompose  sum_k g_k * x_k  with boolean guards into [(g,x)]; None if
    there are too many guards"""
    if t.op != 'poly':
        return [(ONE, t)]
    atoms = []
    for m, c in t.args[0]:
        for a, e in m:
            if is_bool_atom(a) and a not in atoms:
                atoms.append(a)
    if len(atoms) > limit:
        return None
    if not atoms:
        return [(ONE, t)]
    atoms.sort(key=lambda x: x.dig)
    groups = {}
    order = []
    for bits in range(1 << len(atoms)):
        on = {a for k, a in enumerate(atoms) if bits >> k & 1}
        offs = set(atoms) - on
        d = {}
        for m, c in t.args[0]:
            if any(a in offs for a, e in m):
                continue
            m2 = tuple((a, e) for a, e in m if a not in on)
            d[m2] = d.get(m2, 0) + c
        leaf = mkpoly(d)
        g = ONE
        for k, a in enumerate(atoms):
            g = mul(g, a if bits >> k & 1 else sub(ONE, a))
        if g is ZERO:
            continue
        if leaf in groups:
            groups[leaf] = add(groups[leaf], g)
        else:
            groups[leaf] = g
            order.append(leaf)
    return [(groups[x], x) for x in order]


# ----------------------------------------------------------------- binders
# A binder node is  mk(op, binders, body, *rest)  where binders is a tuple of
# domain tuples ('rng', lo, hi) and bound variable number k of the node is
# bv(base+k): base = 1 + the largest bound level inside the node's own parts.
def bv(level, isint=True):
    return mk('bv', level, isint)


def _replace(t, mp, memo):
    """structural replacement without binder bookkeeping"""
    if t in mp:
        return mp[t]
    if not t.args or t.op in ('sym', 'str', 'var', 'bv'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: _replace(x, mp, memo))
    memo[t] = r
    return r


def _mapargs(x, f):
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapargs(y, f) for y in x)
    return x


REBUILD = {}


def rebuild(t, f):
    op = t.op
    if op == 'poly':
        r = ZERO
        simple = True
        d = {}
        for m, c in t.args[0]:
            nm = []
            ok = True
            for a, e in m:
                b = f(a)
                if b is not a:
                    ok = False
                nm.append((b, e))
            if ok:
                d[m] = d.get(m, 0) + c
            else:
                simple = False
                x = const(c)
                for b, e in nm:
                    x = mul(x, powi(b, e))
                r = add(r, x)
        return add(r, mkpoly(d))
    h = REBUILD.get(op)
    if h:
        return h(t, f)
    args = tuple(_mapargs(a, f) for a in t.args)
    if args == t.args:
        return t
    return mk(op, *args)


def _reb2(fn):
    return lambda t, f: fn(*[f(a) for a in t.args])


REBUILD['bit'] = _reb2(bit)
REBUILD['shl'] = _reb2(shl)
REBUILD['shr'] = _reb2(shr)
REBUILD['mod'] = _reb2(mod)
REBUILD['floordiv'] = _reb2(floordiv)
REBUILD['sgn'] = _reb2(sgn)
REBUILD['lt'] = _reb2(lt0)
REBUILD['eq'] = _reb2(eq0)
REBUILD['par'] = lambda t, f: f(t.args[0])


def _fold(fn):
    def h(t, f):
        r = None
        for x in t.args[0]:
            y = f(x)
            r = y if r is None else fn(r, y)
        return r
    return h


REBUILD['bxor'] = _fold(bxor)
REBUILD['band'] = _fold(band)
REBUILD['bor'] = _fold(bor)

BINDERS = {}      # op -> (opener, closer)


def subst(t, mp, memo=None):
    """capture-avoiding substitution of variables (terms) by terms"""
    if memo is None:
        memo = {}
        keys = set(mp)
        allvars = all(k.op == 'var' for k in keys)
    else:
        keys, allvars = memo['keys'], memo['allvars']
    if 'keys' not in memo:
        memo['keys'], memo['allvars'] = keys, allvars
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    if t in mp:
        return mp[t]
    if memo['allvars'] and not (t.fv & memo['keys']):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        opener, closer = BINDERS[t.op]
        vs, parts = opener(t)
        parts = tuple(_mapargs(p, lambda x: _subst(x, mp, memo)) for p in parts)
        r = closer(vs, parts, t)
    elif not t.args or t.op in ('sym', 'str', 'var', 'bv', 'type'):
        r = t
    else:
        r = rebuild(t, lambda x: _subst(x, mp, memo))
    memo[t] = r
    return r


def _maxlvl(x):
    if isinstance(x, Term):
        return x.lvl
    if isinstance(x, tuple):
        return max([0] + [_maxlvl(y) for y in x])
    return 0


def close(vs, parts):
    """replace fresh variables vs by bound variables in parts; returns (base, parts)"""
    base = 1 + _maxlvl(parts)
    mp = {v: bv(base + k, v.args[2]) for k, v in enumerate(vs)}
    memo = {}
    return base, tuple(_mapargs(p, lambda x: _replace(x, mp, memo)) for p in parts)


def open_(base, flags, parts):
    vs = [fresh('b', fl) for fl in flags]
    mp = {bv(base + k, fl): v for (k, fl), v in zip(enumerate(flags), vs)}
    memo = {}
    return vs, tuple(_mapargs(p, lambda x: _replace(x, mp, memo)) for p in parts)


# ---- sums -----------------------------------------------------------------
# mk('sum', doms, body, base)   doms = ((lo,hi),...) possibly depending on bvs
def _open_sum(t):
    doms, body, base = t.args
    vs, parts = open_(base, [True] * len(doms), (doms, body))
    return vs, parts


def _close_sum(vs, parts, t):
    doms, body = parts
    r = body
    # rebuild from the inside so that everything is renormalised
    return sum_over(list(zip(vs, doms)), body)


def canon_binders(binders, body_parts, sortable=True):
    """binders: list of (var, dom) ; returns best ordering respecting dependencies,
    and closed (base, doms, parts)"""
    n = len(binders)
    vs = [v for v, d in binders]

    def deps(d):
        s = set()

        def w(x):
            if isinstance(x, Term):
                s.update(v for v in vs if v in x.fv)
            elif isinstance(x, tuple):
                for y in x:
                    w(y)
        w(d)
        return s
    dep = {v: deps(d) for v, d in binders}
    best = None
    if not sortable or n == 1:
        orders = [tuple(range(n))]
    elif n <= 4:
        orders = permutations(range(n))
    else:
        # by domain digest
        def colour(k):
            v, d = binders[k]
            return _dig_of(d)
        orders = [tuple(sorted(range(n), key=lambda k: (len(dep[binders[k][0]]), colour(k))))]
    for order in orders:
        seen = set()
        ok = True
        for k in order:
            v, d = binders[k]
            if not dep[v] <= seen:
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        ovs = [binders[k][0] for k in order]
        doms = tuple(binders[k][1] for k in order)
        base, parts = close(ovs, (doms,) + tuple(body_parts))
        key = _dig_of(parts)
        if best is None or key < best[0]:
            best = (key, base, parts)
    if best is None:
        ovs = vs
        doms = tuple(d for v, d in binders)
        base, parts = close(ovs, (doms,) + tuple(body_parts))
        return base, parts
    return best[1], best[2]


def sum_over(binders, body):
    """binders: list of (var, (lo,hi))"""
    if body is ZERO:
        return ZERO
    r = ZERO
    for m, c in pitems(body):
        r = add(r, scale(_sum_mono(binders, m), c))
    return r


def backwards(t, v):
    """arrays are read at positions that only go down with v"""
    down = False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'index':
            for i in x.args[1]:
                if v in i.fv:
                    c = pdict(i).get(((v, 1),))
                    if c == -1:
                        down = True
                    elif c is not None:
                        return False
        for z in _kids(x):
            if v in z.fv:
                todo.append(z)
    return down


def _kids(x):
    if x.op == 'poly':
        return [a for m, c in x.args[0] for a, e in m]
    out, todo = [], [x.args]
    while todo:
        y = todo.pop()
        for z in y:
            if isinstance(z, Term):
                out.append(z)
            elif isinstance(z, tuple):
                todo.append(z)
    return out


def _sum_mono(binders, m):
    vs = {v for v, d in binders}
    inner, outer = [], []
    # closure: which binders are relevant
    for a, e in m:
        if a.fv & vs:
            inner.append((a, e))
        else:
            outer.append((a, e))
    # open nested sums that depend on the binders
    binders = list(binders)
    body = ONE
    for a, e in inner:
        if a.op == 'sum' and e == 1:
            ivs, (doms, b) = _open_sum(a)
            binders.extend(zip(ivs, doms))
            body = mul(body, b)
        else:
            body = mul(body, powi(a, e) if a.op != 'par' else mkpoly({((a, e),): Fraction(1)}))
    its = pitems(body)
    out = mkpoly({tuple(outer): Fraction(1)}) if outer else ONE
    if len(its) != 1 or its[0][1] != 1:
        r = ZERO
        for m2, c2 in its:
            r = add(r, scale(_sum_mono(binders, m2), c2))
        return mul(out, r)
    m2 = its[0][0]
    # some factors may have become independent (or nested sums remain): redo split
    used = set()

    def relevant():
        rel = set()
        ch = True
        for a, e in m2:
            rel |= a.fv
        while ch:
            ch = False
            for v, d in binders:
                if v in rel:
                    for x in d:
                        if not x.fv <= rel:
                            rel |= x.fv
                            ch = True
        return rel
    rel = relevant()
    fac = ONE
    keep = []
    for v, (lo, hi) in binders:
        if v in rel:
            keep.append((v, (lo, hi)))
        else:
            cnt = sub(hi, lo)
            if cnt.fv & vs or any(cnt.fv & {w} for w, _ in binders):
                # trip count depends on other binders: becomes part of the body
                body2 = mul(mkpoly({m2: Fraction(1)}), cnt)
                others = [(w, d) for w, d in binders if w is not v]
                return mul(out, sum_over(others, body2)) if others else mul(out, body2)
            fac = mul(fac, cnt)
    if not keep:
        return mul(mul(out, fac), mkpoly({m2: Fraction(1)}))
    kvs = {v for v, _ in keep}
    dom_vs = set()
    for v, d in keep:
        for x in d:
            dom_vs |= x.fv
    ins = [(a, e) for a, e in m2 if a.fv & kvs]
    outs = [(a, e) for a, e in m2 if not (a.fv & kvs)]
    if outs:
        out = mul(out, mkpoly({tuple(outs): Fraction(1)}))
    if any(a.op == 'sum' and e == 1 for a, e in ins):
        return mul(mul(out, fac), _sum_mono(keep, tuple(ins)))
    # Kronecker deltas: eq(i - x) with i a binder having no further constraints
    for a, e in ins:
        if a.op == 'eq':
            for v, (lo, hi) in keep:
                p = a.args[0]
                d = pdict(p)
                cv = d.get(((v, 1),))
                if cv in (1, -1):
                    rest = mkpoly({k: c for k, c in d.items() if k != ((v, 1),)})
                    if v in rest.fv:
                        continue
                    val = scale(rest, -1 / cv)
                    others = [(w, dd) for w, dd in keep if w is not v]
                    if val.fv & {v}:
                        continue
                    b = mkpoly({tuple(x for x in ins if x[0] is not a): Fraction(1)})
                    b = subst(b, {v: val})
                    # in range?
                    g = ONE
                    inr = any(same_dom((lo, hi), dd) and val is w for w, dd in keep)
                    if not inr:
                        g = mul(sub(ONE, lt(val, lo)), lt(val, hi))
                    others = [(w, tuple(subst(x, {v: val}) for x in dd)) for w, dd in others]
                    b = mul(b, g)
                    rr = sum_over(others, b) if others else b
                    return mul(mul(out, fac), rr)
    t = mkpoly({tuple(sorted(ins, key=lambda ae: ae[0].dig)): Fraction(1)})
    for v, (lo, hi) in keep:
        if backwards(t, v):
            r = subst(t, {v: sub(add(lo, hi), add(v, ONE))})
            return mul(mul(out, fac), sum_over(keep, r))
    base, parts = canon_binders(keep, (t,))
    node = mk('sum', parts[0], parts[1], base)
    return mul(mul(out, fac), node)


def same_dom(a, b):
    return a[0] is b[0] and a[1] is b[1]


BINDERS['sum'] = (_open_sum, _close_sum)


# ---- products ---------------------------------------------------------------
def prod_over(v, lo, hi, body):
    if v not in body.fv:
        return mk('pow', body, sub(hi, lo))
    out = ONE
    # sign factors
    its = pitems(body)
    if len(its) == 1:
        m, c = its[0]
        sg = [a for a, e in m if a.op == 'sgn']
        base, parts = close([v], ((( lo, hi),), body))
        return mk('prodn', parts[0], parts[1], base)
    # 1-2*b  with boolean b : parity of a sum
    q = scale(sub(ONE, body), Fraction(1, 2))
    if is_bool(q):
        return mk('sgn', sum_over([(v, (lo, hi))], q))
    base, parts = close([v], (((lo, hi),), body))
    return mk('prodn', parts[0], parts[1], base)


def _open_gen(t):
    doms, body, base = t.args
    return open_(base, [True] * len(doms), (doms, body))


BINDERS['prodn'] = (_open_gen, lambda vs, parts, t: prod_over(vs[0], parts[0][0][0], parts[0][0][1], parts[1]))


# ---- generic binder nodes (streams, recurrences, lambdas) -------------------
def bind(op, vs, parts, *extra):
    """ordered binder node"""
    base, parts = close(list(vs), parts)
    flags = tuple(v.args[2] for v in vs)
    return mk(op, flags, parts, base, *extra)


def _open_bind(t):
    flags, parts, base = t.args[:3]
    return open_(base, flags, parts)


def _close_bind(vs, parts, t):
    return bind(t.op, vs, parts, *t.args[3:])


for _op in ('stream', 'rec', 'recat', 'recend', 'lam', 'first', 'exists', 'write', 'tripcount'):
    BINDERS[_op] = (_open_bind, _close_bind)


def canon(t, memo=None):
    """re-close every binder from the inside out (levels and orders become canonical)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        opener, closer = BINDERS[t.op]
        vs, parts = opener(t)
        parts = tuple(_mapargs(p, lambda x: canon(x, memo)) for p in parts)
        r = closer(vs, parts, t)
    elif not t.args or t.op in ('sym', 'str', 'var', 'bv', 'type'):
        r = t
    else:
        r = rebuild(t, lambda x: canon(x, memo))
    memo[t] = r
    return r


# ----------------------------------------------------------------- traversal
def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


# ----------------------------------------------------------------- printing
_FUEL = [None]


def show_short(t, n=60, width=360):
    """bounded rendering: shared subterms make the full text exponential"""
    _FUEL[0] = n
    try:
        s = show(t)
    finally:
        _FUEL[0] = None
    return s if len(s) <= width else s[:width] + '...'


def show(t, depth=0):
    if _FUEL[0] is not None:
        _FUEL[0] -= 1
        if _FUEL[0] < 0:
            return '..'
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x) for x in t) + ')'
        return str(t)
    op = t.op
    if op == 'poly':
        if not t.args[0]:
            return '0'
        parts = []
        for m, c in t.args[0]:
            s = '*'.join(show(a) + ('' if e == 1 else f'^{e}') for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = f'{c}*{s}'
            parts.append(s)
        r = ' + '.join(parts).replace('+ -', '- ')
        return r if len(parts) == 1 and not depth else '(' + r + ')'
    if op == 'sym':
        return t.args[0]
    if op == 'str':
        return repr(t.args[0])
    if op == 'none':
        return 'None'
    if op == 'I':
        return '1j'
    if op == 'var':
        return f'{t.args[1]}${t.args[0]}'
    if op == 'bv':
        return f'i{t.args[0]}'
    if op == 'lt':
        return f'[{show(t.args[0])}<0]'
    if op == 'eq':
        return f'[{show(t.args[0])}==0]'
    if op == 'bit':
        return f'bit({show(t.args[0])},{show(t.args[1])})'
    if op == 'attr':
        return f'{show(t.args[0])}.{t.args[1]}'
    if op == 'index':
        return f'{show(t.args[0])}[{", ".join(show(x) for x in t.args[1])}]'
    if op == 'app':
        return f'{t.args[0]}({", ".join(show(x) for x in t.args[1:])})'
    if op == 'sum':
        doms = ','.join(f'i{t.args[2]+k}={show(lo)}..{show(hi)}' for k, (lo, hi) in enumerate(t.args[0]))
        return f'SUM[{doms}]({show(t.args[1])})'
    if op == 'sgn':
        return f'(-1)^({show(t.args[0])})'
    if op == 'slice':
        return ':'.join('' if x.op == 'none' else show(x) for x in t.args)
    return f'{op}({", ".join(show(x) for x in t.args)})'


# ------------------------------------------------- structural hash (order free)
_shash = {}
_UNORDERED = {'min', 'max', 'band', 'bxor', 'bor'}


def shash(t, env):
    """hash of the structure, independent of creation order; env names free variables"""
    local = {}

    def h(x):
        if isinstance(x, tuple):
            return hash(('t',) + tuple(h(y) for y in x))
        if not isinstance(x, Term):
            return stable(x)
        c = _shash if not x.fv else local
        r = c.get(x)
        if r is None:
            r = c[x] = go(x)
        return r

    def go(x):
        if x.op == 'var':
            return env.get(x, 7)
        if x.op == 'poly':
            return hash(('p',) + tuple(sorted((tuple(sorted((h(a), e) for a, e in m)), c.numerator, c.denominator)
                                              for m, c in ((m, Fraction(c)) for m, c in x.args[0]))))
        if x.op == 'eq' and len(x.args) == 1:
            return hash(('e',) + tuple(sorted((h(x.args[0]), h(neg(x.args[0]))))))
        if x.op in _UNORDERED and len(x.args) == 1 and isinstance(x.args[0], tuple):
            return hash((stable(x.op),) + tuple(sorted(h(y) for y in x.args[0])))
        return hash((stable(x.op),) + tuple(h(y) for y in x.args))
    return h(t)


def stable(x):
    if isinstance(x, (int, Fraction)):
        return hash(x)
    import zlib
    return zlib.crc32(repr(x).encode()) + 1000003
