"""C27: variables are assigned before they are read; buffers allocated without values are filled before they are read.

Variables: a forward analysis of every function keeps the names assigned on all paths reaching a statement, and for the
others the tests under which they are assigned, so that a later branch on the same test sees them.  A loop is taken to
run at least once for the statements after it and not to have run for the statements in it.

Buffers: the value-flow summaries carry the unspecified content of a fresh buffer as a symbol of its own.  A value of the
current function that contains it where the reviewed meaning does not, or whose buffer is written at other positions, is
a read of memory nothing has been written to."""
import ast
import multiprocessing as mp
import builtins
from . import laws, arrays
from .terms import walk, show_short
from .compare import flat

UNDEF = arrays.UNDEF


# ------------------------------------------------------------------ variables
class State:
    __slots__ = ('have', 'cond', 'facts')

    def __init__(self, have=(), cond=None, facts=()):
        self.have = set(have)
        self.cond = dict(cond or {})      # name -> set of tests (text, truth) any of which implies it is assigned
        self.facts = set(facts)           # tests known to have this truth here

    def copy(self):
        return State(self.have, {k: set(v) for k, v in self.cond.items()}, self.facts)


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Flow:
    def __init__(self, fn, module_names):
        self.fn = fn
        self.bad = []             # (name, node)
        self.reads = 0
        self.module_names = module_names
        self.locals = set()
        self.globals = set()
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(a.asname or a.name).split('.')[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals |= set(n.names)
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.locals -= self.globals

    def run(self):
        st = State(self.params)
        self.block(self.fn.body, st)
        return self.bad

    # state is mutated; returns False when control does not reach the end
    def block(self, ss, st):
        for s in ss:
            if not self.stmt(s, st):
                return False
        return True

    def read(self, e, st, shadow=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in shadow:
                self.reads += 1
                if e.id not in st.have and not self.covered(st.cond.get(e.id, set()), st.facts):
                    self.bad.append((e.id, e))
                    st.have.add(e.id)         # once per path
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.read(d, st, shadow)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sh = set(shadow)
            for k, g in enumerate(e.generators):
                self.read(g.iter, st, frozenset(sh))
                sh |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    self.read(c, st, frozenset(sh))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.read(x, st, frozenset(sh))
            return
        if isinstance(e, ast.NamedExpr):
            self.read(e.value, st, shadow)
            self.bind(e.target, st)
            return
        if isinstance(e, ast.BoolOp):
            self.read(e.values[0], st, shadow)
            s2 = st.copy()
            for v in e.values[1:]:
                self.assume(e.values[e.values.index(v) - 1], isinstance(e.op, ast.And), s2)
                self.read(v, s2, shadow)
            return
        if isinstance(e, ast.IfExp):
            self.read(e.test, st, shadow)
            for x, t in ((e.body, True), (e.orelse, False)):
                s2 = st.copy()
                self.assume(e.test, t, s2)
                self.read(x, s2, shadow)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Starred, ast.Slice)):
                self.read(c, st, shadow)

    def covered(self, tests, facts):
        """one of the tests holds: it is a known fact, both truths are there, or all choices an assertion left are"""
        if tests & facts:
            return True
        if any((x, not t, n) in tests for x, t, n in tests):
            return True
        for text, tr, nm in facts:
            e = ast.parse(text, mode='eval').body
            if tr and isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.In) and isinstance(e.comparators[0], (ast.List, ast.Tuple, ast.Set)):
                left = ast.unparse(e.left)
                if all((f'{left} == {ast.unparse(c)}', True, nm) in tests for c in e.comparators[0].elts) and e.comparators[0].elts:
                    return True
        return False

    def bind(self, t, st):
        if isinstance(t, ast.Name):
            self.forget(t.id, st)
            st.have.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, st)
        else:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    self.read(c, st)

    def forget(self, name, st):
        st.facts = {f for f in st.facts if name not in f[2]}
        for k in list(st.cond):
            st.cond[k] = {f for f in st.cond[k] if name not in f[2]}

    def tests(self, t, truth):
        """what is known when the test has this truth: (text, truth, names)"""
        out = set()
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.tests(t.operand, not truth)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == truth:
            for v in t.values:
                out |= self.tests(v, truth)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            o = type(t.ops[0])
            if o in flip:
                t = ast.Compare(t.left, [flip[o]()], t.comparators)
                truth = not truth
        out.add((ast.unparse(t), truth, frozenset(names_in(t))))
        return out

    def assume(self, t, truth, st):
        new = self.tests(t, truth)
        st.facts |= new
        for k, fs in st.cond.items():
            if fs & st.facts:
                st.have.add(k)

    def merge(self, st, parts, test):
        """parts: [(state or None, truth)]"""
        live = [(s, t) for s, t in parts if s is not None]
        if not live:
            return False
        if len(live) == 1:
            s = live[0][0]
            st.have, st.cond, st.facts = s.have, s.cond, s.facts
            return True
        (a, ta), (b, tb) = live
        have = a.have & b.have
        cond = {}
        for x in (a.have | b.have | set(a.cond) | set(b.cond)) - have:
            fs = set()
            for s, o, t in ((a, b, ta), (b, a, tb)):
                if x in s.have:
                    if x not in o.have:
                        fs |= {f for f in self.tests(test, t) if not f[2] & self.changed} | (s.facts - o.facts)
                        fs |= o.cond.get(x, set())
                else:
                    pass
            if x not in a.have and x not in b.have:
                fs = a.cond.get(x, set()) & b.cond.get(x, set())
                ga = {f for f in self.tests(test, ta)}
                # assigned under a test inside one branch: that test is stronger than the branch, keep it
                fs |= a.cond.get(x, set()) if not b.cond.get(x) else set()
                fs |= b.cond.get(x, set()) if not a.cond.get(x) else set()
            if fs:
                cond[x] = fs
        st.have, st.cond, st.facts = have, cond, a.facts & b.facts
        return True

    changed = frozenset()

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            self.read(s.test, st)
            a, b = st.copy(), st.copy()
            self.assume(s.test, True, a)
            self.assume(s.test, False, b)
            if isinstance(s.test, ast.Constant):
                r = self.block(s.body if s.test.value else s.orelse, a)
                st.have, st.cond, st.facts = a.have, a.cond, a.facts
                return r
            ra = self.block(s.body, a)
            rb = self.block(s.orelse, b)
            # names the branches assign make the test itself stale
            ch = {n.id for x in s.body + s.orelse for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            self.changed = frozenset(ch)
            r = self.merge(st, [(a if ra else None, True), (b if rb else None, False)], s.test)
            self.changed = frozenset()
            return r
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.read(s.iter, st)
            else:
                self.read(s.test, st)
            body = st.copy()
            for n in assigned(s.body):
                self.forget(n, body)
            if isinstance(s, ast.For):
                self.bind(s.target, body)
            else:
                self.assume(s.test, True, body)
            self.block(s.body, body)
            for n in assigned([s]):
                self.forget(n, st)
                st.have.add(n)
            if s.orelse:
                return self.block(s.orelse, st)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(
                    isinstance(x, ast.Break) for x in ast.walk(s)):
                return False
            return True
        if isinstance(s, ast.Try):
            before = st.copy()
            a = st.copy()
            ra = self.block(s.body, a)
            if ra and s.orelse:
                ra = self.block(s.orelse, a)
            outs = [a] if ra else []
            for h in s.handlers:
                b = before.copy()
                if h.name:
                    b.have.add(h.name)
                if self.block(h.body, b):
                    outs.append(b)
            fin = before.copy()
            if not outs:
                self.block(s.finalbody, fin)
                return False
            st.have = set.intersection(*[o.have for o in outs])
            st.cond = outs[0].cond if len(outs) == 1 else {}
            st.facts = set.intersection(*[o.facts for o in outs])
            return self.block(s.finalbody, st)
        if isinstance(s, ast.With):
            for i in s.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Return):
            self.read(s.value, st)
            return False
        if isinstance(s, ast.Raise):
            self.read(s.exc, st)
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.Assign):
            self.read(s.value, st)
            for t in s.targets:
                self.bind(t, st)
            return True
        if isinstance(s, ast.AugAssign):
            self.read(s.value, st)
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.bind(s.target, st)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.read(s.value, st)
                self.bind(s.target, st)
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                self.read(s, st)
            st.have.add(s.name)
            return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            st.have |= {(a.asname or a.name).split('.')[0] for a in s.names}
            return True
        if isinstance(s, ast.Assert):
            self.read(s.test, st)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return False
            self.assume(s.test, True, st)
            return True
        if isinstance(s, ast.Expr):
            self.read(s.value, st)
            c = s.value
            if isinstance(c, ast.Call) and ast.unparse(c.func) in ('exit', 'sys.exit', 'os._exit', 'quit', '_C.exit'):
                return False
            return True
        if isinstance(s, ast.Delete):
            return True
        if s.__class__.__name__ == 'Match':
            self.read(s.subject, st)
            outs = []
            total = False
            for c in s.cases:
                b = st.copy()
                for n in ast.walk(c.pattern):
                    if getattr(n, 'name', None):
                        b.have.add(n.name)
                if c.guard is not None:
                    self.read(c.guard, b)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
                if self.block(c.body, b):
                    outs.append(b)
            if not total:
                outs.append(st.copy())
            if not outs:
                return False
            st.have = set.intersection(*[o.have for o in outs])
            return True
        return True


def assigned(ss):
    out = set()
    for s in ss:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets of a comprehension are its own
            todo += [x for g in n.generators for x in [g.iter] + g.ifs]
            todo += [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            continue
        todo += list(ast.iter_child_nodes(n))


def functions(tree):
    """every function of a module with its dotted name, nested ones too"""
    def go(node, pre):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.FunctionDef):
                yield pre + n.name, n
                yield from go(n, pre + n.name + '.')
            elif isinstance(n, ast.ClassDef):
                yield from go(n, pre + n.name + '.')
            elif isinstance(n, (ast.stmt, ast.ExceptHandler)):
                yield from go(n, pre)
    yield from go(tree, '')


def variables(ctx):
    for name, m in sorted(ctx.C.prog.modules.items()):
        if name.startswith('c:'):
            continue
        for q, fn in functions(m.tree):
            fl = Flow(fn, m.names)
            try:
                bad = fl.run()
            except RecursionError:
                ctx.undecided_(f'assigned {name}.{q}', 'recursion')
                continue
            seen = set()
            for v, node in bad:
                if v in seen:
                    continue
                seen.add(v)
                ctx.violated('variable may be unassigned', f'{name}.{q} {v}', f'{m.path}:{node.lineno}',
                             f'a path reaches this read of {v} without assigning it')
            if not bad and fl.locals:
                ctx.holds(f'assigned {name}.{q}', f'{fl.reads} reads of {len(fl.locals)} variables')


# -------------------------------------------------------------------- buffers
ALLOC = {'empty', 'empty_like', 'ndarray', 'malloc', 'empty_csrmat', 'vector', 'cvector', 'cmatrix'}


def allocates(f):
    return f is not None and any(isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                                 if isinstance(n.func, ast.Attribute) else '') in ALLOC for n in ast.walk(f.node))


def unwritten(t):
    return sum(1 for x in walk(t) if x is UNDEF or any(a is UNDEF for a in x.args))


def holes(x, y):
    """how the current value y reads more unwritten memory than the reviewed one x, or None"""
    if unwritten(y) and not unwritten(x):
        return 'contains the content of a buffer nothing was written to'
    if unwritten(y) > 0 and unwritten(x) > 0:
        if any(v.op in ('full', 'zeros_like', 'full_like') and unwritten(v) and not unwritten(u) for u, v in mismatches(x, y)):
            return 'contains the content of a buffer nothing was written to'
        px, py = positions(x), positions(y)
        if px != py:
            return 'the positions written differ, so that others stay unwritten'
    return None


def mismatches(x, y, limit=4000):
    """pairs of subterms at the same place where the two terms part"""
    todo, seen = [(x, y)], set()
    while todo and limit:
        u, v = todo.pop()
        if u is v or (u, v) in seen:
            continue
        seen.add((u, v))
        limit -= 1
        if u.op == v.op:
            yield u, v
            a, b = flat(u.args), flat(v.args)
            if len(a) == len(b):
                todo += [(p, q) for p, q in zip(a, b) if p is not q and hasattr(p, 'op') and hasattr(q, 'op')]


def positions(t):
    """where the buffers that start unwritten are written"""
    out = set()
    for x in walk(t):
        if x.op == 'arr' and x.args and any(a is UNDEF for a in walk(x.args[0])):
            for e in x.args[1]:
                if e.op == 'w':
                    out.add(e.args[:-1])
                else:
                    out.add((e.op,) + tuple(a for a in e.args[:1] if not hasattr(a, 'op')))
    return out


_ctx = None


def _job(q):
    try:
        st, d = _ctx.cmp.verdict(q)
    except Exception as e:            # engine limitation
        return q, 'UNDECIDED', f'{type(e).__name__}: {e}', None
    if st != 'VIOLATED':
        return q, st, d.get('why') or d.get('level'), None
    out = []
    for k, x, y in d['diff']:
        if y is None:
            continue
        if x is None:
            if unwritten(y):
                out.append((k, 'new, and contains unwritten content', d['locs'].get(k)))
            continue
        h = holes(x, y)
        if h:
            out.append((k, h, d['locs'].get(k)))
    return q, 'VIOLATED' if out else 'OTHER', out, None


def buffers(ctx):
    global _ctx
    _ctx = ctx
    own_ = {p for ps in laws.LAWS.values() for p in ps}
    qs = sorted(q for q in ctx.R.funcs if any(laws.match(p, q) for p in own_) and
                (allocates(ctx.R.funcs[q]) or allocates(ctx.C.funcs.get(q)) or calls_new(ctx, q)))
    if getattr(ctx, 'only', None):        # self-tests: one edited file
        qs = [q for q in qs if (ctx.C.funcs.get(q) or ctx.R.funcs[q]).module.relpath in ctx.only]
    if not qs:
        return
    qs.sort(key=lambda q: q not in laws.SLOW)
    if mp.current_process().daemon:       # already one process of a pool
        res = [_job(q) for q in qs]
    else:
        with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
            res = list(pool.imap_unordered(_job, qs, chunksize=1))
    for q, st, d, _ in sorted(res, key=lambda r: r[0]):
        f = ctx.C.funcs.get(q)
        if st == 'HOLDS':
            ctx.holds(f'buffers {q}', d)
        elif st == 'VIOLATED':
            k, why, loc = d[0]
            ctx.violated('buffer read before it is written', q, f'{f.module.path}:{f.node.lineno}', f'{k}: {why} {loc or ""}')
        elif st == 'OTHER':
            ctx.holds(f'buffers {q}', 'differs from the reviewed meaning, but not in what is written before it is read')
        else:
            ctx.undecided_(f'buffers {q}', d)


def calls_new(ctx, q):
    """calls a function the reviewed program does not have and that allocates"""
    f = ctx.C.funcs.get(q)
    if f is None:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if nm:
                for c, g in ctx.C.funcs.items():
                    if c.rsplit('.', 1)[-1] == nm and c not in ctx.R.funcs and allocates(g):
                        return True
    return False


def run(ctx):
    variables(ctx)
    buffers(ctx)
