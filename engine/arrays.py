"""Canonical values of arrays, lists and dictionaries that were built by writes."""
from .terms import *
from .terms import canon_binders, REBUILD

UNDEF = mk('undef')


def at(idx):
    return mk('at', idx)


def untuple(idx):
    """the components of one key, all of them, are the key"""
    x = idx[0]
    if len(idx) > 1 and x.op == 'index' and x.args[0].op == 'key' and x.args[1] == (ZERO,):
        k = x.args[0]
        if all(y.op == 'index' and y.args[0] is k and y.args[1] == (const(i),) for i, y in enumerate(idx)):
            return (k,)
    return idx


def index(base, idx):
    """structural indexing with beta reduction"""
    idx = tuple(idx)
    if not idx:
        return base
    idx = untuple(idx)
    if len(idx) > 1 and idx[-1].op == 'str' and idx[-1].args[0] in ('real', 'imag') and PART:
        return PART[0](idx[-1].args[0], index(base, idx[:-1]))
    if base.op == 'full':
        sh, val = base.args[0], base.args[1]
        if sh.op == 'tup' and len(sh.args) == len(idx) and all(x.op not in ('slice', 'newaxis', 'ellipsis') for x in idx):
            return val
    if base.op == 'tab' and len(base.args[0]) <= len(idx) and all(
            x.op not in ('slice', 'newaxis', 'ellipsis') for x in idx):
        k = len(base.args[0])
        vs, parts = open_(base.args[2], base.args[0], base.args[1])
        return index(subst(parts[1], dict(zip(vs, idx[:k]))), idx[k:])
    if base.op == 'attr' and base.args[1] == 'shape' and idx == (ZERO,):
        return mk('len', base.args[0])
    if base.op == 'tup' and len(idx) == 1:
        v = const_value(idx[0])
        if v is not None and v.denominator == 1 and -len(base.args) <= v < len(base.args):
            return base.args[int(v)]
    if base.op == 'list' and len(idx) == 1:
        v = const_value(idx[0])
        if v is not None and v.denominator == 1 and all(s.op == 'it' for s in base.args):
            if -len(base.args) <= v < len(base.args):
                return base.args[int(v)].args[0]
        if len(base.args) == 1 and base.args[0].op == 'stream' and idx[0].op not in ('slice', 'newaxis', 'ellipsis'):
            flags, parts, lv = base.args[0].args[:3]
            if len(flags) == 1 and parts[1] is ONE:
                if v is None or v >= 0:
                    vs, p = open_(lv, flags, parts)
                    return subst(p[2], {vs[0]: idx[0]})
    if base.op == 'poly' and const_value(base) is None:
        cs = cases(base, 3)
        if cs is not None and len(cs) > 1:
            r = ZERO
            for g, x in cs:
                r = add(r, mul(g, index(x, idx)))
            return r
    if base.op == 'index':
        if all(x.op not in ('slice', 'newaxis', 'ellipsis') for x in base.args[1] + idx):
            return mk('index', base.args[0], base.args[1] + idx)
        if all(x.op not in ('newaxis', 'ellipsis') for x in base.args[1] + idx):
            full = compose(base.args[1], idx)
            if all(x.op != 'sub' for x in full):
                return index(base.args[0], full)
    if idx[0].op not in ('slice', 'newaxis', 'ellipsis') and len(idx) == 1:
        r = elementwise(base, idx)
        if r is not None:
            return r
    if idx[0].op == 'slice':
        idx = (slice_bounds(base, idx[0]),) + idx[1:]
    while idx and idx[-1].op == 'slice' and all(x is NONE for x in idx[-1].args) and len(idx) > 1:
        idx = idx[:-1]
    return mk('index', base, idx)


LENGTH = []
PART = []


def slice_bounds(base, s):
    """x[:-k] is x[:len(x)-k]; a bound equal to the length is no bound"""
    lo, hi, st = s.args
    if lo is NONE and hi is NONE or st is not NONE and st is not ONE:
        return s
    n = LENGTH[0](base)
    def neg_(z):
        v = None if z is NONE else const_value(z)
        return add(n, z) if v is not None and v < 0 else z
    lo, hi = neg_(lo), neg_(hi)
    if hi is n:
        hi = NONE
    if lo is ZERO:
        lo = NONE
    return mk('slice', lo, hi, NONE)


def kind_of(t):
    """'s' a scalar, 'v' a one dimensional array, None unknown"""
    if const_value(t) is not None or t.op in ('bv', 'len', 'tripcount', 'bit', 'lt', 'eq'):
        return 's'
    if t.op == 'index' and len(t.args[1]) == 1 and t.args[1][0].op == 'slice' and t.args[0].op != 'str':
        return 'v'
    if t.op == 'tab' and len(t.args[0]) == 1:
        return 'v'
    if t.op == 'full' and t.args[0].op == 'tup' and len(t.args[0].args) == 1:
        return 'v'
    if t.op == 'poly':
        ks = {kind_of(a) for m, c in pitems(t) for a, e in m}
        return None if None in ks else 'v' if 'v' in ks else 's'
    if t.op == 'par':
        return kind_of(t.args[0])
    return None


def elementwise(t, idx):
    if t.op not in ('poly', 'par') or kind_of(t) != 'v':
        return None
    def one(a):
        return index(a, idx) if kind_of(a) == 'v' else a
    if t.op == 'par':
        return one(t.args[0])
    r = ZERO
    for m, c in pitems(t):
        x = const(c)
        for a, e in m:
            x = mul(x, powi(one(a), e))
        r = add(r, x)
    return r


def compose(i1, i2):
    """index i2 of the view [i1]"""
    out = []
    rest = list(i2)
    for x in i1:
        if x.op == 'slice' and rest:
            y = rest.pop(0)
            lo, hi, st = x.args
            if y.op == 'slice':
                if all(z is NONE for z in y.args):
                    out.append(x)
                elif all(z is NONE for z in x.args):
                    out.append(y)
                elif all(z is NONE or z is ONE for z in (st, y.args[2])) and all(
                        z is NONE or const_value(z) is None or const_value(z) >= 0 for z in x.args + y.args):
                    l = ZERO if lo is NONE else lo
                    a = l if y.args[0] is NONE else add(l, y.args[0])
                    b = hi if y.args[1] is NONE else add(l, y.args[1])
                    out.append(mk('slice', NONE if a is ZERO else a, b, NONE))
                else:
                    out.append(mk('sub', x, y))
            elif y.op in ('newaxis', 'ellipsis', 'str'):
                out.append(mk('sub', x, y))
            else:
                s = ONE if st is NONE else st
                l = ZERO if lo is NONE else lo
                if const_value(y) is not None and const_value(y) < 0:
                    out.append(mk('sub', x, y))
                else:
                    out.append(add(l, mul(s, y)))
        else:
            out.append(x)
    return tuple(out + rest)


REBUILD['index'] = lambda t, f: index(f(t.args[0]), tuple(f(x) for x in t.args[1]))


def has_slice(idx):
    return any(x.op in ('slice', 'newaxis', 'ellipsis') for x in idx)


def lin(t, v):
    """t = c*v + rest ; returns (c,rest) with c in ±1 or None"""
    d = pdict(t)
    c = d.get(((v, 1),))
    if c not in (1, -1):
        return None
    rest = mkpoly({m: k for m, k in d.items() if m != ((v, 1),)})
    if v in rest.fv:
        return None
    return c, rest


def decide_lt(p, doms):
    """p<0 under v in [lo,hi) facts; True/False/None"""
    for _ in range(4):
        v0 = const_value(p)
        if v0 is not None:
            break
        hit = None
        for m, c in pitems(p):
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in doms:
                hit = (m[0][0], c)
                break
        if hit is None:
            return None
        return _decide(p, doms, 0)
    v0 = const_value(p)
    return None if v0 is None else v0 < 0


def _decide(p, doms, depth):
    if _bound(p, doms, True, 0) == 1:
        return True
    if _bound(p, doms, False, 0) == 1:
        return False
    return None


def _bound(p, doms, upper, depth):
    """upper: is max(p) < 0 ; lower: is min(p) >= 0   -> 1 / 0"""
    v = const_value(p)
    if v is not None:
        return int(v < 0) if upper else int(v >= 0)
    if depth > 5:
        return 0
    for m, c in pitems(p):
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in doms:
            x = m[0][0]
            lo, hi = doms[x]
            val = sub(hi, ONE) if (c > 0) == upper else lo
            if x in val.fv:
                continue
            q = add(sub(p, mkpoly({m: c})), scale(val, c))
            if _bound(q, doms, upper, depth + 1):
                return 1
    # sizes are non-negative: dropping -k*size only helps upper bounds
    return 0


def simp_facts(t, doms):
    """evaluate comparison atoms at ring level that the domains decide"""
    if t.op not in ('poly', 'lt', 'eq') or not doms:
        return t
    if not (t.fv & doms.keys()):
        return t
    mp = {}
    for m, c in pitems(t):
        for a, e in m:
            if a.op == 'lt' and a not in mp and a.fv:
                r = decide_lt(a.args[0], doms)
                if r is not None:
                    mp[a] = ONE if r else ZERO
            elif a.op == 'eq' and a not in mp and a.fv:
                if decide_lt(a.args[0], doms) or decide_lt(neg(a.args[0]), doms):
                    mp[a] = ZERO
    if not mp:
        return t
    r = ZERO
    for m, c in pitems(t):
        x = const(c)
        for a, e in m:
            x = mul(x, mp[a] if a in mp else (powi(a, e) if a.op != 'par' else mkpoly({((a, e),): 1})))
        r = add(r, x)
    return r


# ------------------------------------------------------------------ entries
def simple_pattern(binders, idx):
    """idx components are distinct binder variables or closed terms, and every
    binder appears: returns dict position->binder index or None"""
    vs = [v for v, d in binders]
    pos = {}
    for k, x in enumerate(idx):
        if x in vs:
            b = vs.index(x)
            if b in pos.values():
                return None
            pos[k] = b
        elif any(v in x.fv for v in vs):
            return None
    return pos


def unify(b1, i1, b2, i2):
    """i1 is a full simple pattern; match i2 to it. returns (renaming of b2 vars, extra b2 binders) or None"""
    if len(i1) != len(i2):
        return None
    p1 = simple_pattern(b1, i1)
    if p1 is None or len(p1) != len(b1):
        return None
    ren = {}
    v2 = {v: d for v, d in b2}
    for k, (x, y) in enumerate(zip(i1, i2)):
        if k in p1:
            if y not in v2 or y in ren:
                return None
            ren[y] = x
        elif x is not y:
            return None
    for k, (x, y) in enumerate(zip(i1, i2)):
        if k in p1:
            d1 = b1[p1[k]][1]
            d2 = tuple(subst(q, ren) for q in v2[y])
            if d1[0] is not d2[0] or d1[1] is not d2[1]:
                return None
    extra = [(v, tuple(subst(q, ren) for q in d)) for v, d in b2 if v not in ren]
    return ren, extra


def disjoint(e1, e2):
    i1, i2 = e1.idx, e2.idx
    if e1.guard is ZERO or e2.guard is ZERO:
        return True
    if i1 and i2 and len(i1) == len(i2):
        for x, y in zip(i1, i2):
            if x.op == 'slice' and y.op != 'slice':
                x, y = y, x
            if y.op == 'slice' and (const_value(x) or 0) >= 0 and const_value(x) is not None and \
                    y.args[0] is not NONE and const_value(y.args[0]) is not None and \
                    const_value(y.args[0]) > const_value(x) and (y.args[2] is NONE or (const_value(y.args[2]) or 0) > 0):
                return True
            if x.op in ('slice', 'newaxis', 'ellipsis') or y.op in ('slice', 'newaxis', 'ellipsis'):
                continue
            d = sub(x, y)
            v = const_value(d)
            if v is not None and v != 0 and not x.fv & {b for b, _ in e1.binders}:
                return True
            doms = {b: dd for b, dd in list(e1.binders) + list(e2.binders)}
            if doms and (decide_lt(d, doms) or decide_lt(neg(d), doms)):
                return True
            shared = [b for b, _ in e1.binders if any(b is c for c, _ in e2.binders)]
            if shared:
                # different iterations of one loop
                ren = {b: fresh('o') for b in shared}
                d = sub(x, subst(y, ren))
                doms.update({ren[b]: tuple(subst(q, ren) for q in dict(e2.binders)[b]) for b in shared})
                if decide_lt(d, doms) or decide_lt(neg(d), doms):
                    return True
            if x.op in ('str',) and y.op in ('str',) and x is not y:
                return True
    return False


def norm_guard(e):
    doms = {v: d for v, d in e.binders}
    e.guard = simp_facts(e.guard, doms)
    return e


def canon_log(base, entries):
    items = []
    for e in entries:
        if e.op == 'phi':
            base = e.val
            items = []
            continue
        e = norm_guard(e.copy())
        if e.guard is ZERO:
            continue
        _add(items, e)
    # whole-array operations in front are part of the value
    while items:
        it = items[0]
        if it[0] == '+' and all(not e.idx and not e.binders and e.guard is ONE for e in it[1]) and base is not UNDEF:
            if base.op == 'full' and base.args[1] is not UNDEF:
                if base.args[1] is ZERO and len(it[1]) == 1:
                    base = mk('addfill', base.args[0], total(*[e.val for e in it[1]]))
                else:
                    break
            else:
                base = total(base, *[e.val for e in it[1]])
            items.pop(0)
        elif it[0] == '*' and not it[1].idx and not it[1].binders and it[1].guard is ONE and base.op != 'full':
            base = mul(base, it[1].val)
            items.pop(0)
        elif it[0] == '=' and not it[1].idx and not it[1].binders and it[1].guard is ONE:
            v = it[1].val
            base = v if const_value(v) is None else mk('full', shape_of(base), v, NONE)
            items.pop(0)
        else:
            break
    # fully written tables
    if items and base.op == 'full' and base.args[0].op == 'tup':
        it = items[0]
        dims = base.args[0].args
        fill = base.args[1]
        if it[0] == '=':
            e = it[1]
            if _covers(e, dims) and (e.guard is ONE or fill is not UNDEF):
                val = e.val if e.guard is ONE else add(mul(e.guard, e.val), mul(sub(ONE, e.guard), fill))
                base = tab([x for x in e.idx], [d for v, d in e.binders], e.binders, val)
                items.pop(0)
        elif it[0] == '+' and fill is not UNDEF:
            vs = [fresh('t') for _ in dims]
            b1 = [(v, (ZERO, d)) for v, d in zip(vs, dims)]
            val = fill
            for e in it[1]:
                u = unify(b1, tuple(vs), e.binders, e.idx)
                if u is None:
                    val = None
                    break
                ren, extra = u
                x = mul(subst(e.guard, ren), subst(e.val, ren))
                val = add(val, sum_over(extra, x) if extra else x)
            if val is not None:
                base = bind('tab', vs, (tuple(d for v, d in b1), val))
                items.pop(0)
    if not items:
        return base
    # list: plain sequences
    segs = []
    deps = []
    for it in items:
        segs.append(_item_term(it))
    order = _topo(items, segs)
    if base.op == 'list':
        pre = list(base.args)
        k = 0
        while k < len(order) and items[order[k]][0] == 'app':
            pre.append(segs[order[k]])
            k += 1
        base = mk('list', *pre)
        order = order[k:]
        if not order:
            return base
    elif base.op in ('full', 'tab', 'addfill') and items[order[-1]][0] == '*':
        # a final whole-array scaling is a product
        e = items[order[-1]][1]
        if not e.idx and not e.binders and e.guard is ONE:
            if len(order) == 1:
                return mul(e.val, base)
            return mul(e.val, mk('arr', base, tuple(segs[k] for k in order[:-1])))
    return mk('arr', base, tuple(segs[k] for k in order))


def tab(idx, doms, binders, val):
    vs = list(idx)
    d = {v: dd for v, dd in binders}
    return bind('tab', vs, (tuple(d[v] for v in vs), val))


BINDERS['tab'] = (lambda t: open_(t.args[2], t.args[0], t.args[1]),
                  lambda vs, parts, t: bind('tab', vs, parts))


def _covers(e, dims):
    if len(e.idx) != len(dims) or len(e.binders) != len(dims):
        return False
    p = simple_pattern(e.binders, e.idx)
    if p is None or len(p) != len(dims):
        return False
    for k, d in enumerate(dims):
        lo, hi = e.binders[p[k]][1]
        if lo is not ZERO or hi is not d:
            return False
    return True


def shape_of(t):
    if t.op in ('full', 'addfill'):
        return t.args[0]
    if t.op == 'tab':
        d = t.args[1][0]
        if all(x.lvl == 0 for dd in d for x in dd):
            return mk('tup', *[hi for lo, hi in d])
    if t.op == 'arr':
        return shape_of(t.args[0])
    return mk('attr', t, 'shape')


def _add(items, e):
    k = len(items)
    if e.op == '+=':
        while k > 0:
            it = items[k - 1]
            if it[0] == '+':
                it[1].append(e)
                return
            if it[0] == '=':
                f = it[1]
                u = unify(f.binders, f.idx, e.binders, e.idx)
                if u is not None:
                    ren, extra = u
                    g2, v2 = subst(e.guard, ren), subst(e.val, ren)
                    if f.guard is ONE or mul(g2, sub(ONE, f.guard)) is ZERO:
                        x = mul(g2, v2)
                        f.val = add(f.val, sum_over(extra, x) if extra else x)
                        return
                if disjoint(f, e):
                    k -= 1
                    continue
            break
        items.append(('+', [e]))
        return
    if e.op == '=':
        while k > 0:
            it = items[k - 1]
            if it[0] == '=':
                f = it[1]
                u = unify(f.binders, f.idx, e.binders, e.idx)
                if u is not None and not u[1]:
                    ren, _ = u
                    g2, v2 = subst(e.guard, ren), subst(e.val, ren)
                    G = lor(f.guard, g2)
                    f.val = add(mul(g2, v2), mul(sub(ONE, g2), mul(f.guard, f.val)))
                    f.guard = G
                    return
                if disjoint(f, e):
                    k -= 1
                    continue
            elif it[0] == '+' and all(disjoint(f, e) for f in it[1]):
                k -= 1
                continue
            break
        items.append(('=', e))
        return
    if e.op == '*=':
        if items and items[-1][0] == '=':
            f = items[-1][1]
            u = unify(f.binders, f.idx, e.binders, e.idx)
            if u is not None and not u[1]:
                g2, v2 = subst(e.guard, u[0]), subst(e.val, u[0])
                f.val = mul(f.val, ite(g2, v2, ONE))
                return
        if items and items[-1][0] == '*':
            f = items[-1][1]
            u = unify(f.binders, f.idx, e.binders, e.idx)
            if u is not None and not u[1] and f.guard is ONE and e.guard is ONE:
                f.val = mul(f.val, subst(e.val, u[0]))
                return
        items.append(('*', e))
        return
    items.append((e.op, e))


def _item_term(it):
    if it[0] == '+':
        S = ZERO
        for e in it[1]:
            x = prod(e.guard, e.val, at(e.idx))
            S = add(S, sum_over(e.binders, x) if e.binders else x)
        return mk('acc', S)
    e = it[1]
    if it[0] == 'app' or it[0] == 'call':
        if not e.binders and e.guard is ONE:
            return mk('it' if it[0] == 'app' else 'do', e.val) if not e.idx else mk(it[0], e.idx, e.val)
        vs = [v for v, d in e.binders]
        return bind('stream', vs, (tuple(d for v, d in e.binders), e.guard, e.val) + ((e.idx,) if e.idx else ()), it[0])
    G = e.guard
    V = mul(G, e.val)
    if not e.binders:
        return mk('w', it[0], G, e.idx, V)
    base, parts = canon_binders(e.binders, (G, e.idx, V))
    flags = tuple(True for _ in e.binders)
    return mk('write', flags, parts, base, it[0])


def _ents(it):
    return it[1] if it[0] == '+' else [it[1]]


def _exclusive(g, h):
    """never both on one path (of one iteration, when the loop variable is shared)"""
    if g is ONE or h is ONE or len(pitems(g)) * len(pitems(h)) > 64:
        return False
    try:
        return mul(g, h) is ZERO
    except TooBig:
        return False


def _commute(a, b):
    if a[0] == '+' and b[0] == '+':
        return True
    if a[0] == '*' and b[0] == '*':
        return True
    if all(_exclusive(x.guard, y.guard) for x in _ents(a) for y in _ents(b)):
        return True
    if a[0] in ('app', 'call') or b[0] in ('app', 'call') or a[0] not in '+=*' or b[0] not in '+=*':
        return False
    return all(disjoint(x, y) or _exclusive(x.guard, y.guard)
               for x in _ents(a) for y in _ents(b))


def _topo(items, segs):
    n = len(items)
    if n > 40:
        return list(range(n))
    pred = [set(j for j in range(k) if not _commute(items[j], items[k])) for k in range(n)]
    done, order = set(), []
    while len(order) < n:
        av = [k for k in range(n) if k not in done and pred[k] <= done]
        k = min(av, key=lambda q: segs[q].dig)
        order.append(k)
        done.add(k)
    return order


# --------------------------------------------------------- reading a log back
RECANON = [False]


def _reb_arr(t, f):
    base = f(t.args[0])
    segs = tuple(f(s) for s in t.args[1])
    if base is t.args[0] and segs == t.args[1]:
        return t
    if not RECANON[0]:
        return mk('arr', base, segs)
    try:
        ents = [e for s in segs for e in decode(s)]
    except _Opaque:
        return mk('arr', base, segs)
    return canon_log(base, ents)


class _Opaque(Exception):
    pass


def decode(s):
    """the log entries a canonical segment stands for"""
    from .values import Entry
    if s.op == 'it':
        return [Entry([], ONE, 'app', (), s.args[0], '')]
    if s.op == 'do':
        return [Entry([], ONE, 'call', (), s.args[0], '')]
    if s.op in ('app', 'call') and len(s.args) == 2 and isinstance(s.args[0], tuple):
        return [Entry([], ONE, s.op, s.args[0], s.args[1], '')]
    if s.op == 'w':
        op, g, idx, v = s.args
        if g is ZERO:
            return []
        return [Entry([], g, op if op in ('=', '*') and op == '=' else ('*=' if op == '*' else op), idx, v, '')]
    if s.op == 'write':
        vs, parts = open_(s.args[2], s.args[0], s.args[1])
        doms, g, idx, v = parts
        if g is ZERO:
            return []
        op = s.args[3]
        return [Entry(list(zip(vs, doms)), g, '*=' if op == '*' else op, idx, v, '')]
    if s.op == 'stream':
        vs, parts = open_(s.args[2], s.args[0], s.args[1])
        doms, g, v = parts[:3]
        if g is ZERO:
            return []
        return [Entry(list(zip(vs, doms)), g, s.args[3], parts[3] if len(parts) > 3 else (), v, '')]
    if s.op == 'acc':
        out = []
        for m, c in pitems(s.args[0]):
            ats = [a for a, e in m if a.op == 'at' and e == 1]
            if len(ats) == 1:
                out.append(Entry([], ONE, '+=', ats[0].args[0],
                                 mkpoly({tuple(x for x in m if x[0] is not ats[0]): c}), ''))
                continue
            sums = [a for a, e in m if a.op == 'sum' and e == 1]
            if len(ats) or len(sums) != 1:
                raise _Opaque
            from .terms import _open_sum
            vs, (doms, body) = _open_sum(sums[0])
            rest = mkpoly({tuple(x for x in m if x[0] is not sums[0]): c})
            for m2, c2 in pitems(body):
                a2 = [a for a, e in m2 if a.op == 'at' and e == 1]
                if len(a2) != 1:
                    raise _Opaque
                out.append(Entry(list(zip(vs, doms)), ONE, '+=', a2[0].args[0],
                                 mul(rest, mkpoly({tuple(x for x in m2 if x[0] is not a2[0]): c2})), ''))
        return out
    raise _Opaque


REBUILD['arr'] = _reb_arr
