"""C09: parallel loops.

Every loop over prange in a Cython function, or in a numba function compiled with parallel=True, is followed once with a
symbolic loop variable; callees (numba functions, Cython functions, the C kernels) are entered.  The positions written and
read in shared arrays become polynomial forms of the loop variable, the inner loop variables and the sizes, and two
different iterations must not meet: the forms are separated by a stride at least as large as what the inner loops cover."""
import ast
from fractions import Fraction
from itertools import product, count
from . import front_c

_n = count()


# ---- polynomials: {sorted tuple of symbols: coefficient}
def const(c):
    return {(): Fraction(c)} if c else {}


def S(name):
    return {(name,): Fraction(1)}


def add(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + c * k
        if not d[m]:
            del d[m]
    return d


def mul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            t = tuple(sorted(m + n))
            d[t] = d.get(t, 0) + c * e
            if not d[t]:
                del d[t]
    return d


def syms(p):
    return {s for m in p for s in m}


def nonneg(p):
    """every symbol is a size or a position: nothing negative can come from positive coefficients"""
    return all(c >= 0 for c in p.values())


def coeff(p, s):
    """p = q*s + r with s at most once per term, or None"""
    q, r = {}, {}
    for m, c in p.items():
        k = m.count(s)
        if k > 1:
            return None
        if k:
            l = list(m)
            l.remove(s)
            q[tuple(l)] = c
        else:
            r[m] = c
    return q, r


def value(p, env):
    t = Fraction(0)
    for m, c in p.items():
        for s in m:
            c = c * env[s]
        t += c
    return t


class Arr:
    """a view of an array: leading indices fixed so far, offset of the first axis left"""
    shape2 = None           # a 1-d array seen as a matrix

    def __init__(self, root, pre=(), off=None):
        self.root, self.pre, self.off = root, pre, off if off is not None else {}


class Unknown:
    """a number this analysis has no form for; load: read from an array at a position that varies"""
    def __init__(self, load=False, dep=True):
        self.load, self.dep = load, dep          # dep: may differ between iterations


class Struct:
    def __init__(self, loop=None):
        self.f, self.loop = {}, loop


class Acc:
    def __init__(self, kind, root, idx, line, inner, text):
        self.kind, self.root, self.idx, self.line, self.inner, self.text = kind, root, idx, line, inner, text


class Unsupported(Exception):
    pass


PURE = {'abs', 'len', 'range', 'float', 'int', 'complex', 'min', 'max', 'sum', 'round', 'bool', 'print', 'isinstance', 'enumerate', 'zip',
        'popcount', 'sizeof', 'pow', 'sqrt', 'cabs', 'creal', 'cimag', 'exp', 'fabs'}
NEW = {'empty', 'zeros', 'ones', 'full', 'arange', 'linspace', 'empty_like', 'zeros_like', 'ones_like', 'array', 'copy', 'ascontiguousarray'}


class Loop:
    """one parallel loop"""

    def __init__(self, an, func, node, env):
        self.an, self.func, self.node = an, func, node
        self.var = f'v{next(_n)}'
        self.acc = []
        self.ranges = {}          # inner loop symbol -> (lo, hi) or None
        self.private = set()
        self.vague = []           # effects that could not be followed
        self.state = []
        self.depth = 0


class Analysis:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.C.prog
        self.cdefs = {}
        for rel, ds in self.prog.cdecls.items():
            if isinstance(ds, str):
                continue
            for d in ds:
                if d.get('kind') == 'FunctionDecl' and front_c.body_of(d):
                    self.cdefs[d['name']] = (rel, d, {x['name'] for x in ds if x.get('kind') == 'VarDecl'})
        self.indep = {}           # size symbol -> its array, when it is the size of a parameter
        self.depsyms = set()
        self.derived = {}         # symbol -> (dividend, divisor)
        self.loops = 0

    # ------------------------------------------------------------ functions
    def function(self, f):
        self.f, self.mod = f, f.module
        env = {}
        for a in f.node.args.args:
            env[a.arg] = ('param', a.arg)
        self.loop = None
        self.ranges, self.priv = {}, set()
        self.shapes, self.len1 = {}, {}
        self.block(f.node.body, env)

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                old = self.num(env.get(s.target.id))
                x = self.arith(s.op, old, v) if old is not None else Unknown()
                if isinstance(env.get(s.target.id), Arr):
                    self.record('write', env[s.target.id], None, s, ast.unparse(s.target))
                    return
                if isinstance(env.get(s.target.id), tuple) and env[s.target.id][0] == 'param' and self.loop is None:
                    return
                env[s.target.id] = x
            else:
                self.ev(s.target, env)
                self.assign(s.target, v, env, s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ends = lambda x: x and isinstance(x[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if ends(s.body):
                a = b
            elif ends(s.orelse):
                b = a
            for k in set(a) | set(b):
                env[k] = a[k] if k in a and k in b and same(a[k], b[k]) else self.join(a.get(k), b.get(k))
        elif isinstance(s, ast.For):
            self.for_(s, env)
        elif isinstance(s, ast.While):
            names = stored(s.body)
            up = self.counters(s, env)
            c = s.test
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(
                    c.left, ast.Name) and up.get(c.left.id, (0, 0))[1] == const(1) and not names & names_of(c.comparators[0]):
                hi = self.num(self.ev(c.comparators[0], env))
                lo = up[c.left.id][0]
                if poly(hi):
                    sym = f's{next(_n)}'
                    self.ranges[sym] = (const(0), add(add(hi, lo, -1), const(isinstance(c.ops[0], ast.LtE))))
                    for n in names:
                        if n in up:
                            env[n] = add(up[n][0], mul(up[n][1], S(sym)))
                        elif not isinstance(env.get(n), Arr):
                            env[n] = Unknown()
                    self.block(s.body, env)
                    for n in names:
                        if not isinstance(env.get(n), Arr):
                            env[n] = Unknown()
                    return
            for n in stored(s.body):
                if not isinstance(env.get(n), Arr):
                    env[n] = Unknown()
            self.ev(s.test, env)
            self.block(s.body, env)
            for n in stored(s.body):
                if not isinstance(env.get(n), Arr):
                    env[n] = Unknown()
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = self.ev(s.value, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
            par = any('parallel' in ast.unparse(i.context_expr) for i in s.items)
            saved = self.thread
            self.thread = self.thread or par
            self.block(s.body, env)
            self.thread = saved
        elif isinstance(s, ast.Try):
            self.block(s.body, env)
            for h in s.handlers:
                self.block(h.body, dict(env))
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        else:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ev(e, env)

    thread = False

    def join(self, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr) and a.root == b.root:
                return Arr(a.root, None)
            return ('either', a, b)
        return Unknown(isinstance(a, Unknown) and a.load or isinstance(b, Unknown) and b.load)

    def for_(self, s, env):
        it = s.iter
        is_range = isinstance(it, ast.Call) and name_of(it.func) in ('range', 'prange', 'pndindex')
        par = is_range and name_of(it.func) == 'prange' and self.parallel and self.loop is None
        lo = hi = step = None
        if is_range:
            a = [self.num(self.ev(x, env)) for x in it.args]
            if len(a) == 1:
                lo, hi, step = const(0), a[0], const(1)
            elif len(a) >= 2:
                lo, hi, step = a[0], a[1], a[2] if len(a) > 2 else const(1)
        else:
            self.ev(it, env)
        if par:
            self.parallel_loop(s, env, lo, hi, step)
            return
        sym = f's{next(_n)}'
        known = None
        if is_range and poly(lo) and poly(hi) and step == const(1):
            known = (lo, hi)
        elif is_range and poly(lo) and poly(hi) and step == const(-1):
            known = (add(hi, const(1)), add(lo, const(1)))
        counters = self.counters(s, env)
        for n in stored(s.body):
            if n in counters and known is not None:
                env[n] = add(counters[n][0], mul(counters[n][1], S(sym)))
            elif not isinstance(env.get(n), (Arr,)):
                env[n] = Unknown()
        self.ranges[sym] = (const(0), add(known[1], known[0], -1)) if known is not None else None
        if known is None and self.loop is not None and not (is_range and len(a) == 2 and not any(
                x.dep if isinstance(x, Unknown) else self.loop.var in syms(x) | self.depsyms & syms(x) for x in a if poly(x) or isinstance(x, Unknown))):
            self.depsyms.add(sym)
        elif known is not None and self.loop is not None and (syms(known[0]) | syms(known[1])) & ({self.loop.var} | self.depsyms):
            self.depsyms.add(sym)
        if self.loop is None and known is not None:
            self.indep[sym] = name_of(s.target) or sym
        if isinstance(s.target, ast.Name) and is_range:
            if known is not None and step == const(-1):
                env[s.target.id] = add(add(known[1], const(1), -1), S(sym), -1) if syms(known[0]) else add(known[0], S(sym))
            else:
                env[s.target.id] = add(known[0], S(sym)) if known is not None else S(sym)
        else:
            self.elements(s.target, it, env, sym)
        self.block(s.body, env)
        for n in stored(s.body):
            if n in counters and known is not None:
                env[n] = add(counters[n][0], mul(counters[n][1], add(known[1], known[0], -1)))
            elif not isinstance(env.get(n), (Arr, tuple)):
                env[n] = Unknown()
        self.block(s.orelse, env)

    def elements(self, t, it, env, sym):
        """for x in array, for i, x in enumerate(array)"""
        if isinstance(it, ast.Call) and name_of(it.func) == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name):
            env[t.elts[0].id] = S(sym)
            a = self.ev(it.args[0], env)
            if isinstance(a, tuple) and a[0] == 'param':
                a = Arr(a[1])
            n = self.size(a) if isinstance(a, Arr) else None
            self.ranges[sym] = (const(0), n) if n is not None else None
            self.assign(t.elts[1], Unknown(True), env, None)
            return
        self.assign(t, Unknown(True), env, None)

    def counters(self, s, env):
        """variables a loop body increases by an invariant amount, once, unconditionally"""
        out = {}
        names = stored(s.body)
        for n in names:
            hits = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, (ast.Assign, ast.AugAssign)) and n in targets(x)]
            if len(hits) == 1 and hits[0] in s.body and isinstance(hits[0], ast.AugAssign) and isinstance(hits[0].op, (ast.Add, ast.Sub)):
                if hits[0] is not s.body[-1] and any(isinstance(y, ast.Name) and y.id == n for z in s.body[s.body.index(hits[0]) + 1:] for y in ast.walk(z)):
                    continue
                if any(isinstance(y, (ast.Continue, ast.Break)) for y in ast.walk(ast.Module(s.body, []))):
                    continue
                if any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(hits[0].value)):
                    continue
                c, b = self.num(self.ev(hits[0].value, dict(env))), self.num(env.get(n))
                if poly(c) and poly(b):
                    out[n] = (b, c if isinstance(hits[0].op, ast.Add) else mul(c, const(-1)))
        return out

    # ------------------------------------------------------------ the parallel loop
    def parallel_loop(self, s, env, lo, hi, step):
        self.loops += 1
        label = f'{self.mod.relpath} {self.f.name} {name_of(s.target) or "loop"}'
        where = f'{self.mod.path}:{s.lineno}'
        loop = Loop(self, self.f, s, env)
        loop.range = (lo, hi) if poly(lo) and poly(hi) and step == const(1) else None
        found = len(self.ctx.findings)
        self.scalars(s, env, label, where)
        self.loop, self.ranges = loop, loop.ranges
        inner = dict(env)
        counters = self.counters(s, env)
        carried = stored(s.body)
        for n in carried:
            if not isinstance(env.get(n), (Arr, tuple, Struct)):
                inner[n] = Unknown()
        if isinstance(s.target, ast.Name):
            inner[s.target.id] = S(loop.var)
        try:
            self.block(s.body, inner)
        except Unsupported as e:
            loop.vague.append(str(e))
        self.loop, self.ranges = None, {}
        self.judge(loop, label, where)
        for n in carried:
            if not isinstance(env.get(n), Arr):
                env[n] = Unknown()
        if len(self.ctx.findings) == found:
            if loop.vague:
                self.ctx.undecided_(label, loop.vague[0])
            else:
                k = len([a for a in loop.acc if a.kind == 'write'])
                self.ctx.holds(label, f'{k} shared writes, {len(loop.acc) - k} shared reads')

    def scalars(self, s, env, label, where):
        """variables that carry a value from one iteration to another"""
        names = stored(s.body)
        body = ast.Module(s.body, [])
        inner = {t for x in ast.walk(body) if isinstance(x, (ast.For, ast.comprehension)) for t in names_of(x.target)}
        after = following(self.f.node, s)
        for n in sorted(names - inner):
            if isinstance(env.get(n), (Arr,)):
                continue
            first = first_use(s.body, n)
            red = [x for x in ast.walk(body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n]
            stores = [x for x in ast.walk(body) if isinstance(x, (ast.Assign, ast.AnnAssign)) and n in targets(x)]
            loads = [x for x in ast.walk(body) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
            if first == 'store':
                if after and self.mod.kind != 'pyx' and n in env and loaded_first(after, n):
                    self.ctx.violated('a variable of one iteration is used after the loop', f'{label} {n}', where,
                                      f'which iteration sets {n} last depends on the schedule')
                continue
            if red and not stores and not loads:
                kinds = {type(x.op).__name__ for x in red}
                if len(kinds) == 1 and kinds <= {'Add', 'Sub', 'Mult', 'BitOr', 'BitAnd', 'BitXor'}:
                    continue
                self.ctx.violated('a value is carried between iterations', f'{label} {n}', where, f'{n} is combined in more than one way')
                continue
            if stores and not red and all(reduction(x, n) for x in stores) and len(loads) == len(stores):
                continue
            if n not in env:
                continue                  # not set before the loop: a variable of the iteration
            self.ctx.violated('a value is carried between iterations', f'{label} {n}', where, f'an iteration reads the {n} another one has set')

    # ------------------------------------------------------------ conflicts
    def judge(self, loop, label, where):
        for text, ln in loop.state:
            self.ctx.violated('a C function called in a parallel loop keeps state', f'{label} {text}', where, f'{text} is shared by all threads')
        writes = [a for a in loop.acc if a.kind == 'write' and a.root not in loop.private]
        seen = set()
        for w in writes:
            for o in [x for x in loop.acc if x.root == w.root]:
                k = (w.line, w.text, o.line, o.text, o.kind)
                if k in seen:
                    continue
                seen.add(k)
                self.meet(loop, w, o, label, where)

    def meet(self, loop, w, o, label, where):
        """can iteration v write w where iteration v' writes or reads o?"""
        if w.idx == '?' or o.idx == '?':
            loop.vague.append(f'{w.text} and {o.text}: which part of {w.root} is not known')
            return
        if w.idx is None or o.idx is None:
            whole = w if w.idx is None else o
            if w.idx is None and w is o:
                self.ctx.violated('iterations write the same element', f'{label} {w.text}', where, f'every iteration writes all of {w.text}')
            elif w.idx is None and o.kind == 'read' or o.idx is None:
                self.ctx.violated('an iteration reads what another writes' if o.kind == 'read' else 'iterations write the same element',
                                  f'{label} {o.text}', where, f'{whole.text} as a whole, while iterations write {w.text}')
            else:
                loop.vague.append(f'{w.text} and {o.text}')
            return
        if len(w.idx) != len(o.idx):
            loop.vague.append(f'{w.text} and {o.text}: different numbers of indices')
            return
        v = loop.var
        sure = True
        for a, b in zip(w.idx, o.idx):
            if a == 'all' or b == 'all':
                continue
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                if (isinstance(a, Unknown) and not a.load) or (isinstance(b, Unknown) and not b.load):
                    sure = False
                continue
            if self.apart(loop, a, b, v):
                return
        wit = self.witness(loop, w, o, v) if sure else None
        if wit is not None:
            rule = 'iterations write the same element' if o.kind == 'write' else 'an iteration reads what another writes'
            self.ctx.violated(rule, f'{label} {w.text}' + ('' if o.kind == 'write' else f' {o.text}'), where, wit)
        else:
            loop.vague.append(f'{w.text} and {o.text}: not separated')

    def bounds(self, p, ranges):
        """(lowest, width - 1) of the inner symbols of p; None when not known"""
        lo, wide = {}, {}
        for m, c in p.items():
            ins = [s for s in m if s in ranges]
            if not ins:
                lo = add(lo, {m: c})
                continue
            if len(ins) > 1 or ranges[ins[0]] is None:
                return None
            rest = list(m)
            rest.remove(ins[0])
            k = {tuple(rest): c}
            l, h = ranges[ins[0]]
            if any(s in ranges for s in syms(l) | syms(h)):
                return None
            if c < 0:
                return None
            lo = add(lo, mul(k, l))
            wide = add(wide, mul(k, add(add(h, l, -1), const(1), -1)))
        return lo, wide

    def apart(self, loop, a, b, v):
        """for two values of v the forms a and b cannot be equal"""
        ca, cb = coeff(a, v), coeff(b, v)
        if ca is None or cb is None or not ca[0] or ca[0] != cb[0]:
            return False
        q = ca[0]
        if any(s in loop.ranges for s in syms(q)):
            return False
        if set(q.values()) != {c for c in q.values() if c > 0}:
            q = mul(q, const(-1))
            ca, cb = (q, mul(ca[1], const(-1))), (q, mul(cb[1], const(-1)))
            if not nonneg(q):
                return False
        ra, rb = self.bounds(ca[1], loop.ranges), self.bounds(cb[1], loop.ranges)
        if ra is not None and rb is not None and ra[0] == rb[0]:
            # |difference of the inner parts| <= max width - 1 < stride
            if all(nonneg(add(add(q, x, -1), const(1), -1)) for x in (ra[1], rb[1])):
                return True
        # the other way round: the inner parts are multiples of the number of iterations times q
        if loop.range is not None:
            n = mul(q, add(loop.range[1], loop.range[0], -1))
            if n and self.multiples(add(ca[1], {}), n) and self.multiples(cb[1], n):
                return True
        return False

    def multiples(self, p, n):
        if len(n) != 1:
            return False
        (m, c), = n.items()
        for t, k in p.items():
            l = list(t)
            for s in m:
                if s not in l:
                    return False
                l.remove(s)
            if (k / c).denominator != 1:
                return False
        return True

    def witness(self, loop, w, o, v):
        """small sizes for which two iterations meet"""
        ren = {s: f"{s}'" for s in loop.ranges}
        pairs, free = [], set()
        for a, b in zip(w.idx, o.idx):
            if a == 'all' or b == 'all':
                continue
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                continue
            pairs.append((a, b))
            free |= syms(a) | syms(b)
        data = any(isinstance(x, Unknown) for x in list(w.idx) + list(o.idx))
        inner = {s for s in free if s in loop.ranges}
        todo = set(inner)
        while todo:
            s = todo.pop()
            r = loop.ranges[s]
            if r is None:
                every = set().union(*(syms(x) for ab in pairs for x in ab))
                if not data and v not in every and not self.depsyms & every and all(loop.ranges[x] is None or v not in syms(loop.ranges[x][0]) | syms(
                        loop.ranges[x][1]) for x in every if x in loop.ranges) and w.text == o.text:
                    return 'every iteration writes the same positions'
                return None
            more = {x for x in syms(r[0]) | syms(r[1])}
            free |= more
            new = {x for x in more if x in loop.ranges} - inner
            inner |= new
            todo |= new
        sizes = sorted(free - inner - {v})
        if loop.range is not None:
            sizes = sorted(set(sizes) | ((syms(loop.range[0]) | syms(loop.range[1])) - inner - {v}))
        todo = list(sizes)
        while todo:
            x = todo.pop()
            if x in self.derived:
                for y in syms(self.derived[x][0]) | syms(self.derived[x][1]):
                    if y not in sizes:
                        sizes.append(y)
                        todo.append(y)
        made = [x for x in sizes if x in self.derived]
        sizes = sorted(x for x in sizes if x not in self.derived)
        has_v = any(v in syms(a) or v in syms(b) for a, b in pairs)
        if has_v and any(s not in self.indep for s in sizes):
            return None
        if data and not has_v:
            return 'the position is read from data: nothing keeps two iterations from meeting'
        if data:
            return None
        inner = sorted(inner)
        if len(sizes) + 2 * len(inner) > 7:
            if not has_v:
                return 'the position does not depend on the iteration'
            return None
        big = {y for x in made for y in syms(self.derived[x][0])}
        for sz in product(*((2, 3, 4, 6) if x in big else (2, 3) for x in sizes)):
            env = dict(zip(sizes, sz))
            for x in sorted(made, key=len):
                a, b = (value(t, env) for t in self.derived[x])
                env[x] = a / b if b else Fraction(1, 2)
            if any(env[x].denominator != 1 or env[x] < 1 for x in made):
                continue
            top = 4
            r = loop.range
            lo, hi = (int(value(r[0], env)), int(value(r[1], env))) if r is not None else (0, 3)
            hi = min(hi, lo + top)
            def points(e):
                out = [dict(e)]
                for s in inner:
                    nxt = []
                    for p in out:
                        try:
                            l, h = (int(value(x, p)) for x in loop.ranges[s])
                        except KeyError:
                            continue
                        nxt += [{**p, s: x} for x in range(l, min(h, l + top))]
                    out = nxt
                return out
            for i in range(lo, hi):
                for j in range(lo, hi):
                    if i == j:
                        continue
                    left = {}
                    for p in points({**env, v: i}):
                        left.setdefault(tuple(value(a, p) for a, _ in pairs), p)
                    for p in points({**env, v: j}):
                        t = tuple(value(b, p) for _, b in pairs)
                        if t in left:
                            at = ', '.join(str(x) for x in t)
                            return f'iterations {i} and {j} meet at [{at}]' + (f' for sizes {", ".join(f"{self.indep.get(k, k)}={x}" for k, x in zip(sizes, sz))}'
                                                                                if sizes else '')
        return None

    # ------------------------------------------------------------ accesses
    def record(self, kind, arr, idx, node, text):
        if self.loop is None:
            return
        if isinstance(arr, tuple) and arr[0] == 'either':
            for x in arr[1:]:
                self.record(kind, x, idx, node, text)
            return
        if isinstance(arr, tuple) and arr[0] == 'param':
            arr = Arr(arr[1])
        if not isinstance(arr, Arr) or arr.root in self.loop.private:
            return
        if arr.pre is None:
            self.loop.acc.append(Acc(kind, arr.root, '?', getattr(node, 'lineno', 0), None, text))
            return
        if arr.shape2 is not None and idx is not None:
            m = arr.shape2[1]
            if len(idx) == 2 and poly(idx[0]):
                j = idx[1]
                if j == 'all':
                    sy = f's{next(_n)}'
                    self.ranges[sy] = (const(0), m)
                    j = S(sy)
                idx = [add(mul(idx[0], m), j) if poly(j) else Unknown()]
            elif len(idx) == 1 and poly(idx[0]):
                sy = f's{next(_n)}'
                self.ranges[sy] = (const(0), m)
                idx = [add(mul(idx[0], m), S(sy))]
            else:
                idx = [Unknown(any(isinstance(x, Unknown) and x.load for x in idx))]
        if idx is None:
            full = None if not arr.pre and not arr.off else list(arr.pre) + (['all'])
            if arr.off and not arr.pre:
                full = None
                if kind == 'write':
                    self.loop.vague.append(f'{text}: a part of {arr.root} of unknown length')
                    return
        else:
            first = idx[0]
            if arr.off:
                first = add(first, arr.off) if poly(first) else first
            full = list(arr.pre) + [first] + list(idx[1:])
        self.loop.acc.append(Acc(kind, arr.root, full, getattr(node, 'lineno', 0), None, text))

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v and v[0] == 'seq' and len(v[1]) == len(t.elts) else [Unknown(isinstance(v, Unknown) and v.load)] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            idx = self.index(t.slice, env)
            self.record('write', b, idx, s, ast.unparse(t))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(b, Struct):
                b.f[t.attr] = v
                if self.loop is not None and b.loop is not self.loop and self.varies(v):
                    self.loop.state.append((f'{ast.unparse(t)}', s.lineno))
            elif self.loop is not None:
                self.record('write', b, [S(f'field {t.attr}')], s, ast.unparse(t))

    def varies(self, v):
        """may the value differ between iterations"""
        v = self.num(v)
        if poly(v):
            return any(x == self.loop.var or x in self.depsyms or x in self.ranges for x in syms(v))
        if isinstance(v, Arr):
            return v.root in self.loop.private or v.pre is None or self.varies(v.off) or any(self.varies(x) for x in v.pre if x != 'all')
        return v.dep if isinstance(v, Unknown) else True

    def index(self, e, env):
        es = e.elts if isinstance(e, ast.Tuple) else [e]
        out = []
        for x in es:
            if isinstance(x, ast.Slice):
                lo = self.num(self.ev(x.lower, env)) if x.lower is not None else const(0)
                hi = self.num(self.ev(x.upper, env)) if x.upper is not None else None
                if x.lower is None and x.upper is None:
                    out.append('all')
                elif poly(lo) and poly(hi) and (x.step is None):
                    s = f's{next(_n)}'
                    self.ranges[s] = (const(0), add(hi, lo, -1))
                    out.append(add(lo, S(s)))
                else:
                    out.append(Unknown())
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                out.append('all')
            else:
                v = self.num(self.ev(x, env))
                out.append(v if poly(v) else v if isinstance(v, Unknown) else Unknown())
        return out

    def num(self, v):
        if isinstance(v, tuple) and v and v[0] == 'param':
            return S(f'={v[1]}')
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or not isinstance(e.value, int):
                return Unknown()
            return const(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return ('global', e.id)
        if isinstance(e, ast.BinOp):
            return self.arith(e.op, self.num(self.ev(e.left, env)), self.num(self.ev(e.right, env)))
        if isinstance(e, ast.UnaryOp):
            v = self.num(self.ev(e.operand, env))
            if isinstance(e.op, ast.USub) and poly(v):
                return mul(v, const(-1))
            return Unknown(isinstance(v, Unknown) and v.load)
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('seq', [self.ev(x, env) for x in e.elts])
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if isinstance(b, Struct):
                return b.f.get(e.attr, Unknown())
            if isinstance(b, tuple) and b and b[0] == 'param':
                b = Arr(b[1])
            if isinstance(b, Arr):
                if e.attr == 'size':
                    n = self.size(b)
                    return n if n is not None else Unknown()
                if e.attr == 'shape':
                    return ('shape', b)
                if e.attr in ('T', 'real', 'imag', 'flat'):
                    return Arr(b.root, None)
                if not b.pre and not b.off:
                    r = Arr(f'{b.root}.{e.attr}')
                    return r
            return Unknown()
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            if isinstance(b, tuple) and b and b[0] == 'shape':
                k = e.slice.value if isinstance(e.slice, ast.Constant) else None
                return self.dim(b[1], k) if isinstance(k, int) else Unknown()
            if isinstance(b, tuple) and b and b[0] == 'seq' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                try:
                    return b[1][e.slice.value]
                except IndexError:
                    return Unknown()
            idx = self.index(e.slice, env)
            if isinstance(b, tuple) and b and b[0] == 'param':
                b = Arr(b[1])
            if isinstance(b, tuple) and b and b[0] == 'either':
                self.record('read', b, idx, e, ast.unparse(e))
                return Unknown(True)
            if isinstance(b, Arr):
                sl = e.slice
                if isinstance(sl, ast.Slice) and sl.step is None and sl.upper is None:
                    lo = self.num(self.ev(sl.lower, env)) if sl.lower is not None else const(0)
                    if poly(lo) and b.pre is not None:
                        return Arr(b.root, b.pre, add(b.off, lo))
                    return Arr(b.root, None)
                if isinstance(sl, ast.Slice) and isinstance(e.ctx, ast.Load):
                    lo = self.num(self.ev(sl.lower, env)) if sl.lower is not None else const(0)
                    self.record('read', b, idx, e, ast.unparse(e))
                    r = Arr(b.root, b.pre, add(b.off, lo)) if poly(lo) and b.pre is not None and sl.step is None else Arr(b.root, None)
                    up = self.num(self.ev(sl.upper, env))
                    if poly(lo) and poly(up) and sl.step is None:
                        r.length = add(up, lo, -1)
                    return r
                if isinstance(e.ctx, ast.Load):
                    self.record('read', b, idx, e, ast.unparse(e))
                row = Unknown(True, self.loop is None or b.root in self.loop.private or b.pre is None or any(
                    x != 'all' and (x.dep if isinstance(x, Unknown) else bool(syms(x) & ({self.loop.var} | self.depsyms))) for x in idx))
                if b.shape2 is not None and len(idx) == 1 and poly(idx[0]):
                    row = Arr(b.root, (), mul(idx[0], b.shape2[1]))
                    row.length = b.shape2[1]
                    return row
                if b.shape2 is not None:
                    return row
                if b.pre is not None and not b.off and len(idx) == 1 and b.root in self.ndim2(b.root):
                    row = Arr(b.root, tuple(b.pre) + (idx[0],))
                return row
            return Unknown(True)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a if same(a, b) else self.join(a, b)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e)
            return v
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
            return Unknown()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return Unknown()

    def ndim2(self, root):
        """roots a single index of which is a row: arrays indexed like a[i][j] somewhere"""
        key = (self.f.qual, root)
        if not hasattr(self, '_rows'):
            self._rows = {}
        if self.f.qual not in self._rows:
            self._rows[self.f.qual] = {n.value.value.id for n in ast.walk(self.f.node) if isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Subscript) and isinstance(n.value.value, ast.Name)}
        return self._rows[self.f.qual]

    def size(self, b):
        if getattr(b, 'length', None) is not None:
            return b.length
        if b.pre is None or b.off:
            return None
        if b.root in self.len1:
            return self.len1[b.root]
        if b.pre:
            return None
        s = f'|{b.root}|'
        self.indep.setdefault(s, f'{b.root}.size')
        return S(s)

    def dim(self, b, k):
        if b.root in self.len1 and k == 0:
            return self.len1[b.root]
        if b.pre is None:
            return Unknown()
        one = k == 0 and not b.pre
        s = f'|{b.root}|' if one and not self.two(b.root) else f'{b.root}.shape{k + len(b.pre)}'
        self.indep.setdefault(s, f'{b.root}.shape[{k}]')
        return S(s)

    def two(self, root):
        """an array whose shape is asked for with more than one axis, or that is indexed with two"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and ast.unparse(
                    n.value.value) == root and isinstance(n.slice, ast.Constant) and n.slice.value:
                return True
            if isinstance(n, ast.Subscript) and ast.unparse(n.value) == root and isinstance(n.slice, ast.Tuple):
                return True
        return False

    def arith(self, op, a, b):
        if poly(a) and poly(b):
            if isinstance(op, ast.Add):
                return add(a, b)
            if isinstance(op, ast.Sub):
                return add(a, b, -1)
            if isinstance(op, ast.Mult):
                return mul(a, b)
            if isinstance(op, ast.FloorDiv) and (self.loop is None or not (syms(a) | syms(b)) & ({self.loop.var} | set(self.ranges))):
                if len(b) == 1 and set(b.values()) == {1}:
                    # W.size // nup: a size of its own
                    s = f'({show(a)})//({show(b)})'
                    self.derived[s] = (a, b)
                    return S(s)
            if isinstance(op, ast.LShift) and set(b) <= {()}:
                return mul(a, const(2 ** int(b.get((), 0)))) if b.get((), 0) >= 0 else Unknown()
            if self.loop is None:
                return S(f'({show(a)}){type(op).__name__}({show(b)})')
            v = self.loop.var
            return Unknown()
        load = any(isinstance(x, Unknown) and x.load for x in (a, b))
        return Unknown(load and isinstance(op, (ast.Add, ast.Sub, ast.Mult)))

    def call(self, e, env):
        n = name_of(e.func)
        if n == '__cstruct__':
            return Struct(self.loop)
        if n == '__addr__':
            return self.ev(e.args[0], env)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        base = self.ev(e.func.value, env) if isinstance(e.func, ast.Attribute) else None
        if isinstance(base, tuple) and base and base[0] == 'param' and n in ('copy', 'astype', 'fill', 'sum', 'dot', 'reshape', 'ravel', 'view'):
            base = Arr(base[1])
        if n == 'len' and args:
            a = Arr(args[0][1]) if isinstance(args[0], tuple) and args[0][0] == 'param' else args[0]
            if isinstance(a, Arr):
                d = self.dim(a, 0)
                return d
            return Unknown()
        if n in ('int', 'uint32', 'int64', 'int32', 'uint64', 'intp', 'Py_ssize_t') and len(args) == 1:
            v = self.num(args[0])
            return v if poly(v) else Unknown(isinstance(v, Unknown) and v.load)
        if isinstance(base, Arr):
            if n in ('copy', 'astype'):
                return self.fresh(e, base, args)
            if n in ('reshape', 'ravel', 'view', 'squeeze'):
                sh = args[0][1] if len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'seq' else args
                sh = [self.num(x) for x in sh]
                if n == 'reshape' and len(sh) == 2 and poly(sh[1]) and nonneg(sh[1]) and not base.pre and base.pre is not None and not base.off and not self.two(base.root):
                    r = Arr(base.root)
                    r.shape2 = sh
                    return r
                return Arr(base.root, None) if n != 'ravel' else base
            if n in ('fill', 'sort', 'partition', 'put'):
                self.record('write', base, None, e, ast.unparse(e.func.value))
                return Unknown()
            self.record('read', base, None, e, ast.unparse(e.func.value))
            return Unknown()
        mod = isinstance(e.func, ast.Attribute) and name_of(e.func.value) in ('np', 'numpy', 'math', 'cmath')
        if mod:
            out = kws.get('out')
            if out is not None:
                self.record('write', out, None, e, ast.unparse(e))
            if n in ('copyto', 'put', 'place', 'fill_diagonal') and args:
                self.record('write', args[0], None, e, ast.unparse(e.args[0]))
            for a, x in zip(args, e.args):
                if isinstance(a, (Arr,)) or (isinstance(a, tuple) and a and a[0] == 'either'):
                    if n not in ('empty_like', 'zeros_like', 'ones_like') and not (n in ('copyto',) and a is args[0]):
                        self.record('read', a, None, e, ast.unparse(x))
            if n in NEW:
                return self.fresh(e, args[0] if args else None, args)
            return Unknown()
        f = self.resolve(e.func)
        if f is not None:
            return self.enter(f, e, args, kws)
        if n in PURE or n is None and False:
            return Unknown()
        if isinstance(e.func, ast.Name) and e.func.id in env:
            if self.loop is not None and any(isinstance(a, (Arr, tuple)) for a in args):
                self.loop.vague.append(f'{ast.unparse(e.func)} is not known')
            return Unknown()
        if self.loop is not None:
            for a, x in zip(args, e.args):
                if isinstance(a, Arr) and a.root not in self.loop.private or isinstance(a, Struct):
                    self.loop.vague.append(f'{ast.unparse(e.func)} is not known')
        return Unknown()

    def fresh(self, e, like, args):
        root = f'new{next(_n)}'
        if self.loop is not None or self.thread:
            if self.loop is not None:
                self.loop.private.add(root)
            self.priv.add(root)
        n = name_of(e.func)
        if n in ('empty', 'zeros', 'ones', 'full', 'arange') and args and poly(self.num(args[0])) and len(args) <= 2:
            self.len1[root] = self.num(args[0])
        elif n in ('copy', 'astype', 'empty_like', 'zeros_like', 'ones_like', 'ascontiguousarray', 'array'):
            if isinstance(like, tuple) and like and like[0] == 'param':
                like = Arr(like[1])
            if isinstance(like, Arr) and not like.pre and like.pre is not None and not like.off and not self.two(like.root):
                self.len1[root] = self.size(like)
        return Arr(root)

    def resolve(self, fn):
        try:
            if isinstance(fn, ast.Name):
                r = self.prog.resolve(self.mod.name, fn.id)
            elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
                m = self.prog.resolve(self.mod.name, fn.value.id)
                if not m or m[0] != 'module':
                    return None
                r = self.prog.resolve(m[1], fn.attr)
            else:
                return None
        except (KeyError, RecursionError):
            return None
        return r[1] if r and r[0] == 'func' else None

    def enter(self, f, e, args, kws):
        if self.loop is not None and f.module.kind == 'c':
            self.c_state(f.name)
        if self.depth > 4 or any(isinstance(a, ast.Starred) for a in e.args):
            if self.loop is not None:
                self.loop.vague.append(f'{f.name} not entered')
            return Unknown()
        if self.loop is None and not any(isinstance(n, ast.Call) and name_of(n.func) == 'prange' for n in ast.walk(f.node)):
            if f.module.kind != 'c' and len(list(ast.walk(f.node))) > 400:
                return Unknown()
        names = [a.arg for a in f.node.args.args]
        env = dict(zip(names, args))
        env.update({k: v for k, v in kws.items() if k in names})
        for a, d in zip(reversed(names), reversed(f.node.args.defaults)):
            if a not in env:
                env[a] = self.ev(d, {})
        for a in names:
            env.setdefault(a, Unknown())
        saved = (self.f, self.mod, getattr(self, 'ret', None), self.parallel)
        self.f, self.mod, self.ret, self.parallel = f, f.module, None, self.parallel and self.loop is not None
        self.depth += 1
        body = f.node.body if not isinstance(f.node, ast.Lambda) else [ast.Return(f.node.body)]
        try:
            self.block(body, env)
            r = self.ret
        finally:
            self.f, self.mod, self.ret, self.parallel = saved
            self.depth -= 1
        if isinstance(r, Arr) and r.root.startswith('new') and self.loop is not None:
            self.loop.private.add(r.root)
        returns = sum(isinstance(n, ast.Return) for n in ast.walk(f.node))
        return r if r is not None and returns == 1 else Unknown(isinstance(r, Unknown) and r.load)

    depth = 0

    def c_state(self, name, seen=()):
        """static and file-scope variables a C function changes"""
        if name not in self.cdefs or name in seen:
            return
        rel, d, globs = self.cdefs[name]

        def go(n):
            k = n.get('kind')
            if k == 'VarDecl' and n.get('storageClass') == 'static' and 'const' not in (n.get('type') or {}).get('qualType', ''):
                statics.add(n.get('name'))
            t = None
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
                t = n['inner'][0]
            elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
                t = n['inner'][0]
            while t is not None and t.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ArraySubscriptExpr'):
                t = t['inner'][0]
            if t is not None and t.get('kind') == 'DeclRefExpr':
                nm = t['referencedDecl']['name']
                if nm in statics or (nm in globs and nm not in local):
                    self.loop.state.append((f'{name} {nm}', n.get('_line')))
            if k in ('VarDecl', 'ParmVarDecl') and n.get('name') and n.get('storageClass') != 'static':
                local.add(n['name'])
            if k == 'CallExpr':
                f = n['inner'][0]
                while f.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                    f = f['inner'][0]
                if f.get('kind') == 'DeclRefExpr':
                    self.c_state(f['referencedDecl']['name'], seen + (name,))
            for c in n.get('inner', ()):
                if c.get('kind'):
                    go(c)
        statics, local = set(), set()
        go(d)


# ---- helpers
def poly(v):
    return isinstance(v, dict)


def show(p):
    return '+'.join(f'{c}*' * (c != 1) + '*'.join(m) if m else str(c) for m, c in sorted(p.items()))


def same(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.root == b.root and a.pre == b.pre and a.off == b.off
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return a is b
    try:
        return a == b
    except Exception:
        return False


def name_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def names_of(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def targets(s):
    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
    return {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def stored(ss):
    return {n.id for s in ss for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def order(n):
    """names in the order they are evaluated: (name, load or store)"""
    if isinstance(n, ast.Assign):
        yield from order(n.value)
        for t in n.targets:
            yield from order(t)
    elif isinstance(n, ast.AugAssign):
        yield from order(n.value)
        if isinstance(n.target, ast.Name):
            yield n.target.id, 'load'
        yield from order(n.target)
    elif isinstance(n, ast.AnnAssign):
        if n.value is not None:
            yield from order(n.value)
            yield from order(n.target)
    elif isinstance(n, ast.For):
        yield from order(n.iter)
        yield from order(n.target)
        for s in n.body + n.orelse:
            yield from order(s)
    elif isinstance(n, ast.Name):
        yield n.id, 'store' if isinstance(n.ctx, ast.Store) else 'load'
    else:
        for c in ast.iter_child_nodes(n):
            yield from order(c)


def first_use(ss, name):
    for s in ss:
        for n, k in order(s):
            if n == name:
                return k
    return None


def loaded_first(ss, name):
    return first_use(ss, name) == 'load'


def following(fn, loop):
    """statements that run after a loop, in order"""
    out, found = [], [False]

    def go(ss):
        for s in ss:
            if s is loop:
                found[0] = True
                continue
            if found[0]:
                out.append(s)
                continue
            for b in ('body', 'orelse', 'finalbody'):
                x = getattr(s, b, None)
                if isinstance(x, list):
                    go(x)
    go(fn.body)
    return out


def reduction(s, name):
    """x = x + e, x = max(x, e)"""
    v = s.value
    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult, ast.Sub)):
        l = isinstance(v.left, ast.Name) and v.left.id == name
        r = isinstance(v.right, ast.Name) and v.right.id == name and not isinstance(v.op, ast.Sub)
        return l or r
    if isinstance(v, ast.Call) and name_of(v.func) in ('max', 'min'):
        return any(isinstance(a, ast.Name) and a.id == name for a in v.args)
    return False


def is_parallel(f):
    """compiled so that prange runs on several threads; None: prange is range"""
    if f.module.relpath.endswith('.pyx'):
        return True
    for d in getattr(f.node, 'decorator_list', ()):
        if isinstance(d, ast.Call) and name_of(d.func) in ('njit', 'jit', 'guvectorize', 'vectorize'):
            for k in d.keywords:
                if k.arg == 'parallel':
                    return not (isinstance(k.value, ast.Constant) and not k.value.value)
                if k.arg is None:
                    return True
    return False


def run(ctx):
    from . import laws
    total = 0
    for q, f in sorted(laws.functions(ctx.C.prog).items()):
        if f.module.kind == 'c' or isinstance(f.node, ast.Lambda):
            continue
        if not any(isinstance(n, ast.Call) and name_of(n.func) == 'prange' for n in ast.walk(f.node)):
            continue
        a = Analysis(ctx)
        a.parallel = is_parallel(f)
        if not a.parallel:
            ctx.holds(f'{f.module.relpath} {f.name}', 'not compiled with parallel=True: the loop is sequential')
            continue
        try:
            a.function(f)
        except (RecursionError, KeyError, AttributeError, Unsupported) as e:
            ctx.undecided_(f'{f.module.relpath} {f.name}', f'{type(e).__name__} {e}')
        total += a.loops
    ctx.notes.append(f'{total} parallel loops')
