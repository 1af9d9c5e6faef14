"""Decides whether a function of the current tree still means what the reviewed
reference model says it means, by comparing canonical value-flow summaries."""
import ast, signal, time
from .terms import *
from .values import *
from .program import Program, Func
from .interp import dict_names, Interp
from .same import Same
from . import laws, terms


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


FAIL = (Unsupported, TooBig, RecursionError, Timeout)
WEAK = {'loopview', 'var', 'selfref', 'unsolved'}


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def ndefaults(f):
    return len(f.node.args.defaults)


def guard(fn):
    """a procedure that only refuses its arguments: calling it or not is visible in what the caller raises"""
    if isinstance(fn, ast.Lambda) or not any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(fn)):
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Return) and n.value is not None or isinstance(n, (ast.Yield, ast.YieldFrom, ast.For, ast.While, ast.With)):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
            return False
    return True


def signature(f):
    a = f.node.args
    return (tuple(params(f)), len(a.defaults), bool(a.vararg), bool(a.kwarg), tuple(x.arg for x in a.kwonlyargs))


def unrelated(*progs):
    """two package classes without a common descendant, in every program given"""
    trees = []
    for p in progs:
        cl = {}
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    cl[f'{m.name}.{n.name}'] = {b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute)
                                                else '?' for b in n.bases}
        up = {}
        for q in cl:
            seen, todo = set(), [q]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for b in cl.get(x, ()):
                    todo.extend([y for y in cl if y.rsplit('.', 1)[1] == b] or [b])
            up[q] = seen
        trees.append(up)

    def f(a, b):
        if a is b or a.op != 'ref' or b.op != 'ref':
            return False
        x, y = a.args[0], b.args[0]
        for up in trees:
            if x not in up or y not in up or any(x in u and y in u for u in up.values()):
                return False
            if any('?' in u for u in (up[x], up[y])):
                return False
        return True
    return f


class Side:
    def __init__(self, root, overrides=None, with_c=True):
        self.prog = Program(root, overrides=overrides, with_c=with_c)
        self.funcs = laws.functions(self.prog)
        self.all = laws.opaque_set(self.prog, True)
        self.cache = {}
        self.effects = {}


class Comparer:
    def __init__(self, model, repo, budget=90.0, steps=500000, overrides=None, with_c=True):
        self.R = Side(model, with_c=with_c)
        self.C = Side(repo, overrides, with_c)
        self.C.prog.reference = self.R.prog
        self.budget = budget          # seconds, a last resort only
        self.steps = steps            # deterministic work limit
        terms.EXCLUSIVE[:] = [unrelated(self.R.prog, self.C.prog)]
        dict_names(self.R.prog)
        dict_names(self.C.prog)
        # functions both trees have with the same interface stay symbolic
        common = set()
        for q in self.R.all:
            f, g = self.R.funcs.get(q), self.C.funcs.get(q)
            if f is not None and g is not None and signature(f) == signature(g) and q in self.C.all:
                common.add(q)
        self.common = common
        self.default = {q for q in common if not any(laws.match(p, q) for p in laws.INLINE) and not guard(self.R.funcs[q].node)}
        self.memo = {}
        self.attr_ren = {}
        signal.signal(signal.SIGALRM, _alarm)

    # ---------------------------------------------------------------- summary
    def summary(self, side, q, opaque, state=True):
        key = (q, opaque, state)
        if key in side.cache:
            return side.cache[key]
        f = side.funcs[q]
        o = {x: x for x in opaque}
        ip = Interp(side.prog, o)
        ip.effect_cache = side.effects
        ip.array_state = state
        t0 = time.time()
        signal.setitimer(signal.ITIMER_REAL, self.budget)
        terms.budget(self.steps * 2 if state else self.steps)
        try:
            names = None
            if side is self.C and q in self.R.funcs:
                names = self.param_names(self.R.funcs[q], f)
            c = ip.summarize(f, names=names)
            r = (c, ip.locs(), None)
        except FAIL as e:
            r = (None, {}, f'{type(e).__name__}: {e} (line {getattr(ip, "line", 0)})')
        except Exception as e:           # engine limitation, never an alarm
            r = (None, {}, f'engine {type(e).__name__}: {e}')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            terms.budget(1 << 62)
        side.cache[key] = r
        self.t = time.time() - t0
        return r

    def param_names(self, fr, fc):
        """canonical names for the parameters of the candidate"""
        a, b = params(fr), params(fc)
        if set(a) == set(b):
            return None
        return [a[k] if k < len(a) and (b[k] not in a) else b[k] for k in range(len(b))]

    # ------------------------------------------------------------- comparison
    def pair(self, q, opaque):
        # contents of arrays that a loop reads and writes as explicit state; where
        # that gets too large on either side, as an unknown on both
        for state in (True, False):
            a = self.summary(self.R, q, opaque, state)
            if a[0] is None and state:
                continue
            b = self.summary(self.C, q, opaque, state)
            if b[0] is None and state:
                continue
            break
        if a[0] is None or b[0] is None:
            return None, (a[2] or b[2]), b[1]
        return self.diff(q, a[0], b[0]), None, b[1]

    def diff(self, q, a, b):
        """list of (component, reference, candidate)"""
        out = []
        ra = lor_all(v for k, v in a.items() if k.startswith('raises '))
        rb = lor_all(v for k, v in b.items() if k.startswith('raises '))
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k), b.get(k)
            if x is y:
                continue
            if k == 'shares':
                d = self.shares(x, y)
                if d:
                    out.append((k, mk('str', d[0]), mk('str', d[1])))
                continue
            if x is not None and y is not None and self.canon(x) is self.canon(y):
                continue
            if k.startswith('raises '):
                n = k.split(' ', 1)[1]
                if ra is rb and not self.caught(n):
                    continue
            if x is not None and y is not None and self.same(x, y):
                continue
            if k == 'return' and x is NONE:
                continue
            if k.startswith('set ') and x is None and not self.known_attr(k.rsplit('.', 1)[-1]):
                continue
            if k == 'calls' and x is not None and y is not None and same_multiset(x, y):
                continue
            if k.startswith('default ') and x is None:
                continue
            out.append((k, x, y))
        return out

    def shares(self, x, y):
        """attributes that hold one array on one side and separate ones on the other"""
        if x is None or y is None:
            return None
        (px, hx), (py, hy) = [[ast.literal_eval(a.args[0]) for a in t.args] for t in (x, y)]
        known = lambda p: p in hx and p in hy
        lost = [p for p in px if p not in py and known(p[0]) and known(p[2])]
        new = [p for p in py if p not in px and known(p[0]) and known(p[2])]
        if not lost and not new:
            return None
        say = lambda ps: '; '.join(f'{a}{"" if not i else " at [" + i + "]"} is storage of {b}{"" if not j else " at [" + j + "]"}' for a, i, b, j in ps)
        return say(lost) or 'separate arrays', say(new) or 'separate arrays'

    def same(self, x, y):
        terms.budget(self.steps // 2)
        try:
            return Same()(x, y)
        finally:
            terms.budget(1 << 62)

    def canon(self, t):
        try:
            return canon(t)
        except TooBig:
            return t

    def caught(self, name):
        s = getattr(self, '_caught', None)
        if s is None:
            s = set()
            for m in self.R.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ExceptHandler) and n.type is not None:
                        for x in ast.walk(n.type):
                            if isinstance(x, ast.Name):
                                s.add(x.id)
            self._caught = s
        return name in s

    def known_attr(self, name):
        s = getattr(self, '_attrs', None)
        if s is None:
            s = set()
            for m in self.R.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        s.add(n.attr)
            self._attrs = s
        return name in s

    def verdict(self, q):
        """(status, details)"""
        if q in self.memo:
            return self.memo[q]
        self.memo[q] = ('UNDECIDED', {'why': 'recursive'})
        r = self._verdict(q)
        self.memo[q] = r
        return r

    def _verdict(self, q):
        fr, fc = self.R.funcs[q], self.C.funcs.get(q)
        if fc is None:
            return 'UNDECIDED', {'why': 'function no longer exists'}
        opaque = frozenset(self.default - {q})
        tried = set()
        best = None
        err = None
        level = 'callees by their own laws'
        for step in range(6):
            if opaque in tried:
                break
            tried.add(opaque)
            d, e, locs = self.pair(q, opaque)
            if d is None:
                err = err or e
                if step == 0:
                    opaque = frozenset(self.common - {q})
                    level = 'all callees symbolic'
                    continue
                break
            if not d:
                why = self.vague(q, opaque)
                if why:
                    return 'UNDECIDED', {'why': why}
                return 'HOLDS', {'level': level}
            best = (d, locs, opaque)
            # read through helpers only one side mentions
            extra = set()
            va, vb = vocabulary(x for k, x, y in d), vocabulary(y for k, x, y in d)
            extra = {x for x in va ^ vb if x in opaque}
            if not extra:
                # or whose meaning changed together with this caller
                for x in (va | vb) & opaque:
                    if self.verdict(x)[0] != 'HOLDS':
                        extra.add(x)
            if not extra:
                break
            opaque = opaque - extra
            level = 'with ' + ', '.join(sorted(extra)) + ' read through'
        if best is None:
            return 'UNDECIDED', {'why': err}
        d, locs, opaque = best
        why = self.withdraw(q, d) or self.reformulated(q, d, opaque)
        if why:
            return 'UNDECIDED', {'why': why}
        return 'VIOLATED', {'diff': d, 'locs': locs, 'statements': self.edit_size(q, opaque)[0]}

    def vague(self, q, opaque):
        """the text changed and what it computes is described only up to an unknown"""
        if not self.edit_size(q, opaque)[0]:
            return None
        for state in (True, False):
            c = self.summary(self.C, q, opaque, state)[0]
            if c is not None:
                ws = {w.op if w.op in WEAK else 'name' for t in c.values() for w in walk(t)
                      if w.op in WEAK or w.op == 'ref' and str(w.args[0]).startswith('global:') and not str(w.args[0]).startswith('global:_')}
                return 'the summary contains ' + ', '.join(sorted(ws)) if ws else None
        return None

    def reformulated(self, q, d, opaque):
        """the two sides iterate differently and the text differs in several statements:
        the difference of the summaries is then no evidence of a difference in meaning"""
        n, loops, own = self.edit_size(q, opaque)
        if not own:
            # nothing changed here: the functions it calls answer for themselves
            st = [self.verdict(z)[0] for z in vocabulary([t for k, x, y in d for t in (x, y)]) | (self.default - opaque)
                  if z in self.R.funcs and z != q]
            if 'UNDECIDED' in st and 'VIOLATED' not in st and n >= REWRITE:
                return 'calls functions that are undecided themselves'
        if n < REWRITE:
            return None
        for k, x, y in d:
            if x is None or y is None:
                if len(d) == 1 or (x if y is None else y).op not in ('arr', 'tup'):
                    return None
                continue
            if ingredients(x) != ingredients(y):
                return None
            if loops >= 2 and n > REWRITE:
                continue
            a, b = set(walk(x)), set(walk(y))
            if shapes(a - b) == shapes(b - a) and not boundary(a - b, b - a) and extents(a - b) == extents(b - a):
                return None
        return f'{n} statements rewritten and iterated differently: ' + ', '.join(k for k, x, y in d)

    def edit_size(self, q, opaque):
        def texts(side):
            out = {}
            f = side.funcs.get(q)
            todo = [f] if f else []
            other = self.C if side is self.R else self.R
            for h, g in side.funcs.items():
                if h != q and f is not None and (h not in other.funcs and g.module.relpath == f.module.relpath or
                                                 h in self.default and h not in opaque or self.memo.get(h, '-')[0] == 'UNDECIDED'):
                    todo.append(g)
            # what is read through by default
            inl = {}
            for h, g in side.funcs.items():
                if h in self.common and h not in self.default and h not in opaque and h != q:
                    inl.setdefault(h.rsplit('.', 1)[-1], []).append(g)
            seen = {id(g) for g in todo}
            for g in todo:
                for s in statements(g.node):
                    out[s] = out.get(s, 0) + 1
                for x in ast.walk(g.node):
                    for z in inl.get(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None, ()):
                        if id(z) not in seen:
                            seen.add(id(z))
                            todo.append(z)
            return out
        a, b = texts(self.R), texts(self.C)

        def count(keep):
            return max(sum(max(0, n - b.get(s, 0)) for s, n in a.items() if keep(s)),
                       sum(max(0, n - a.get(s, 0)) for s, n in b.items() if keep(s)))
        fr, fc = self.R.funcs[q].node, self.C.funcs[q].node
        own = list(statements(fr)) != list(statements(fc)) or ast.dump(fr.args) != ast.dump(fc.args)
        return count(lambda s: True), count(lambda s: s[1].startswith(('For', 'While'))), own

    def withdraw(self, q, d):
        ok = []
        for k, x, y in d:
            bad = None
            for t in (x, y):
                if t is not None:
                    ws = sorted({w.op for w in walk(t) if w.op in WEAK})
                    if ws:
                        bad = f'{k}: {ws}'
            if not bad:
                return None
            ok.append(bad)
        return '; '.join(ok)


REWRITE = 3


def statements(node):
    """the text of every simple statement and of every compound statement's head"""
    def go(n, d):
        for x in ast.iter_child_nodes(n):
            if not isinstance(x, (ast.stmt, ast.ExceptHandler)):
                continue
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            if isinstance(x, (ast.For, ast.While, ast.If, ast.With, ast.FunctionDef, ast.ClassDef, ast.Try, ast.ExceptHandler)):
                yield d, type(x).__name__ + ' '.join(ast.dump(y) for f, y in ast.iter_fields(x) if isinstance(y, ast.AST))
                yield from go(x, d + 1)
            else:
                yield d, ast.dump(x)
    yield from go(node, 0)


def shapes(ts):
    """how the differing parts iterate: binders with their arity, writes and accumulations"""
    c = {}
    for t in ts:
        if t.op in terms.BINDERS:
            s = (t.op,) + tuple(len(x) if isinstance(x, tuple) else 0 for x in t.args[:2])
            if t.op == 'rec':
                s += tuple(len(p) if isinstance(p, tuple) else 0 for p in t.args[1])
        elif t.op in ('arr', 'list'):
            s = (t.op, tuple(sorted(z.op for z in t.args[-1] if isinstance(z, Term))) if isinstance(t.args[-1], tuple) else ())
        else:
            continue
        c[s] = c.get(s, 0) + 1
    return c


MATH = {'abs', 'conj', 'exp', 'log', 'sqrt', 'sign', 'floor', 'ceil', 'sin', 'cos', 'tanh', 'cosh', 'power'}


def ingredients(t):
    """what a value is made of, however it is put together: inputs, attributes, mathematical functions"""
    out = set()
    for w in walk(t):
        if w.op == 'sym':
            out.add(w.args[0])
        elif w.op == 'attr' and w.args[1] not in ('shape', 'size', 'dtype', 'ndim'):
            out.add('.' + w.args[1])
        elif w.op == 'app' and w.args[0] in MATH or w.op in ('abs', 'conj'):
            out.add(w.args[0] if w.op == 'app' else w.op)
    return out


def extents(ts):
    """upper limits of iterations given as the length of something"""
    out = set()
    for t in ts:
        if t.op in terms.BINDERS:
            dom = t.args[0] if t.op == 'sum' else t.args[1][0] if isinstance(t.args[1], tuple) and t.args[1] else ()
            for x in dom if isinstance(dom, tuple) else ():
                for y in x if isinstance(x, tuple) else ():
                    if isinstance(y, Term) and any(z.op == 'len' for z in walk(y)):
                        out.add(y)
    return out


def boundary(a, b):
    """an equality on one side against an inequality of the same quantity on the other"""
    ea, eb = [t for t in a if t.op == 'eq'], [t for t in b if t.op == 'eq']
    la, lb = [t for t in a if t.op == 'lt'], [t for t in b if t.op == 'lt']

    def near(e, l):
        for s in (add(e.args[0], l.args[0]), sub(e.args[0], l.args[0])):
            v = const_value(s)
            if v is not None and abs(v) <= 1:
                return True
    return bool(not eb and not la and ea and lb and all(any(near(e, l) for l in lb) for e in ea) or
                not ea and not lb and eb and la and all(any(near(e, l) for l in la) for e in eb))


def lor_all(ts):
    r = ZERO
    for t in ts:
        r = lor(r, t)
    return r


def vocabulary(ts):
    s = set()
    for t in ts:
        if t is None:
            continue
        for w in walk(t):
            if w.op in ('app', 'ref'):
                s.add(w.args[0])
    return s


def same_multiset(x, y):
    if x.op != 'arr' or y.op != 'arr' or x.args[0] is not y.args[0]:
        return False
    return sorted(t.dig for t in x.args[1]) == sorted(t.dig for t in y.args[1])


def first_difference(x, y, depth=0):
    """smallest pair of differing subterms along a common spine"""
    while depth < 60:
        if not (isinstance(x, Term) and isinstance(y, Term)) or x.op != y.op or len(x.args) != len(y.args):
            return x, y
        if x.op == 'poly':
            a, b = dict(x.args[0]), dict(y.args[0])
            oa = [m for m in a if b.get(m) != a[m]]
            ob = [m for m in b if a.get(m) != b[m]]
            return (mkpoly({m: a[m] for m in oa}), mkpoly({m: b[m] for m in ob}))
        nxt = [(p, q) for p, q in zip(flat(x.args), flat(y.args)) if p is not q and p != q]
        if len(flat(x.args)) != len(flat(y.args)) or len(nxt) != 1:
            return x, y
        x, y = nxt[0]
        depth += 1
    return x, y


def flat(a):
    out = []
    for x in a:
        if isinstance(x, tuple):
            out += flat(x)
        else:
            out.append(x)
    return out
