"""C28: invalid selectors are rejected.

Each selector parameter is bound to a value outside its documented choices and the function is interpreted abstractly
from the current source with everything else unknown: a test on the selector folds, a test on anything else takes both
branches, and package callees that receive the value are entered.  The function must then have no normal exit (every
path ends in an exception no handler takes); bound to a documented choice it must have one.

A loop over an unknown collection is taken to run at least once: a function with nothing to do has nothing to reject."""
import ast
import builtins

NOBODY = '_no_such_choice_'


class V:
    """abstract value: kind c constant | tup | dict | obj | fn | cls | ag attrgetter | u unknown; t: made from the selector"""
    __slots__ = ('k', 'v', 't', 'x')

    def __init__(self, k, v=None, t=False, x=None):
        self.k, self.v, self.t, self.x = k, v, t, x

    def __repr__(self):
        return f'<{self.k} {self.v!r}{"*" if self.t else ""}>'


U, UT = V('u'), V('u', t=True)


def const(x, t=False):
    if isinstance(x, (tuple, list, set, frozenset)):
        return V('tup', [const(e, t) for e in x], t)
    return V('c', x, t)


def unk(*vs):
    return UT if any(tainted(v) for v in vs) else U


def tainted(v):
    return v.t or (v.k == 'tup' and any(tainted(e) for e in v.v)) or (v.k == 'dict' and any(tainted(e) for e in v.v.values()))


class Raises(Exception):
    def __init__(self, name, line=0):
        self.name, self.line = name, line


class Giveup(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if a.k != b.k or a.t != b.t:
        return False
    if a.k == 'c':
        return type(a.v) is type(b.v) and a.v == b.v
    if a.k == 'tup':
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return a.v is b.v


def join(a, b):
    if a is None or b is None:
        return a or b
    return a if same(a, b) else unk(a, b)


class Frame:
    def __init__(self, func, env, up=None):
        self.func, self.env, self.up = func, env, up


class Flow:
    """how a block ends: env after it, or None; and the other ways out"""
    def __init__(self):
        self.next = None            # env
        self.ret = None             # joined returned value
        self.raised = []            # [(name, line)]
        self.brk, self.cont = None, None

    def absorb(self, o):
        self.ret = join(self.ret, o.ret)
        self.raised += o.raised
        self.brk, self.cont = jenv(self.brk, o.brk), jenv(self.cont, o.cont)


def jenv(a, b):
    if a is None or b is None:
        return a if b is None else b
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        out[k] = join(x, y) if x is not None and y is not None else unk(x or y)
    return out


PYEXC = {n: e for n, e in vars(builtins).items() if isinstance(e, type) and issubclass(e, BaseException)}


class Run:
    def __init__(self, prog, attrs):
        self.prog = prog
        self.attrs = attrs          # every attribute name some class of the package defines
        self.depth = 0
        self.steps = 0
        self.decided = False        # a decision depended on an unknown made from the selector
        self.unsure = False         # ... and an exception was raised after it: that may have been the refusal

    # ---- exceptions
    def exc_bases(self, name, module):
        out, cur, mod = [], name, module
        for _ in range(8):
            out.append(cur)
            if cur in PYEXC:
                out += [c.__name__ for c in PYEXC[cur].__mro__]
                break
            e = None
            for m in [mod] + list(self.prog.modules.values()):
                if m and m.names.get(cur, (0,))[0] == 'class':
                    e = m.names[cur][1]
                    break
            if e is None or not e.bases:
                out += ['Exception', 'BaseException']
                break
            b = e.bases[0]
            cur = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else 'Exception'
        return set(out)

    def catches(self, h, name, module):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        bases = self.exc_bases(name, module)
        return any((t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')) in bases for t in ts)

    # ---- functions
    def call(self, func, args, kw, closure=None, selfv=None):
        if self.depth > 12:
            raise Giveup('depth')
        node = func.node
        a = node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if selfv is not None:
            args = [selfv] + args
        star = None
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if not a.vararg:
                return unk(*args)        # a signature error is C29's
            star = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = V('tup', star or [])
        kws = [x.arg for x in a.kwonlyargs]
        extra = {}
        for n, v in kw.items():
            if n in names or n in kws:
                env[n] = v
            else:
                extra[n] = v
        if a.kwarg:
            env[a.kwarg.arg] = V('dict', {const(n).v: v for n, v in extra.items()})
        fr = Frame(func, env, closure)
        for n, d in zip(reversed(names), reversed(a.defaults)):
            if n not in env:
                env[n] = self.default(func, d)
        for n, d in zip(kws, a.kw_defaults):
            if n not in env:
                env[n] = self.default(func, d) if d is not None else U
        for n in names:
            env.setdefault(n, U)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            fl = self.block(node.body, fr, env)
        finally:
            self.depth -= 1
        if fl.next is not None:
            fl.ret = join(fl.ret, const(None))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node)):
            if fl.ret is None:
                raise Raises(*fl.raised[0])
            return U
        if fl.ret is None:
            if not fl.raised:
                return U              # an endless loop, or an assumption that no longer holds
            raise Raises(*fl.raised[0])
        return fl.ret

    def default(self, func, d):
        try:
            return self.ev(d, Frame(func, {}))
        except Raises:
            return U

    # ---- statements
    def block(self, body, fr, env):
        fl = Flow()
        for st in body:
            self.steps += 1
            if self.steps > 60000:
                raise Giveup('steps')
            fr.env = env
            try:
                s = self.stmt(st, fr, env)
            except Raises as e:
                fl.raised.append((e.name, e.line or st.lineno))
                return fl
            fl.absorb(s)
            env = s.next
            if env is None:
                return fl
        fl.next = env
        return fl

    def ok(self, env):
        f = Flow()
        f.next = env
        return f

    def branch(self, test, fr, env):
        """[(truth, env)] of the ways a test can go"""
        fr.env = env
        v = self.ev(test, fr)
        b = truth(v)
        if b is not None:
            return [(b, env)]
        if tainted(v):
            self.decided = True
        return [(True, dict(env)), (False, dict(env))]

    def stmt(self, st, fr, env):
        T = type(st)
        if T is ast.Expr:
            self.ev(st.value, fr)
            return self.ok(env)
        if T in (ast.Assign, ast.AnnAssign):
            if st.value is None:
                return self.ok(env)
            v = self.ev(st.value, fr)
            for t in (st.targets if T is ast.Assign else [st.target]):
                self.bind(t, v, fr)
            return self.ok(fr.env)
        if T is ast.AugAssign:
            v = self.ev(st.value, fr)
            old = self.ev(st.target, fr) if isinstance(st.target, ast.Name) else U
            self.bind(st.target, self.arith(st.op, old, v, st), fr)
            return self.ok(env)
        if T is ast.Return:
            f = Flow()
            f.ret = self.ev(st.value, fr) if st.value is not None else const(None)
            return f
        if T is ast.Raise:
            f = Flow()
            self.unsure |= self.decided
            n = st.exc
            if n is None:
                name = env['$exc'].v if '$exc' in env else 'Exception'
                f.raised.append((name, st.lineno))
                return f
            if isinstance(n, ast.Call):
                n = n.func
            name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else 'Exception'
            if name in env and env[name].k == 'c' and isinstance(env[name].v, str):
                name = env[name].v
            f.raised.append((name, st.lineno))
            return f
        if T is ast.Assert:
            f = Flow()
            for b, e in self.branch(st.test, fr, env):
                if b:
                    f.next = jenv(f.next, e)
                else:
                    self.unsure |= self.decided
                    f.raised.append(('AssertionError', st.lineno))
            return f
        if T is ast.If:
            f = Flow()
            for b, e in self.branch(st.test, fr, env):
                s = self.block(st.body if b else st.orelse, fr, e)
                f.absorb(s)
                f.next = jenv(f.next, s.next)
            return f
        if T in (ast.For, ast.While):
            return self.loop(st, fr, env)
        if T is ast.Try:
            return self.attempt(st, fr, env)
        if T is ast.With:
            for i in st.items:
                v = self.ev(i.context_expr, fr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, unk(v), fr)
            return self.block(st.body, fr, fr.env)
        if T in (ast.FunctionDef,):
            from .program import Func
            env[st.name] = V('fn', Func(fr.func.module, st), x=fr)
            return self.ok(env)
        if T is ast.Break:
            f = Flow()
            f.brk = env
            return f
        if T is ast.Continue:
            f = Flow()
            f.cont = env
            return f
        if T is ast.Match:
            return self.match(st, fr, env)
        if T is ast.Delete:
            return self.ok(env)
        if T is ast.Import or T is ast.ImportFrom:
            for a in st.names:
                n = a.asname or a.name.split('.')[0]
                env[n] = self.imported(st, a, fr)
            return self.ok(env)
        return self.ok(env)

    def imported(self, st, a, fr):
        if isinstance(st, ast.ImportFrom):
            e = self.prog.resolve(st.module or '', a.name) if not st.level else None
            return self.entity(e)
        return U

    def loop(self, st, fr, env):
        f = Flow()
        if isinstance(st, ast.For):
            it = self.ev(st.iter, fr)
            items = it.v if it.k == 'tup' and len(it.v) <= 12 else None
            if items is not None:
                cur = env
                done = None
                for x in items:
                    if cur is None:
                        break
                    fr.env = cur
                    self.bind(st.target, x, fr)
                    s = self.block(st.body, fr, fr.env)
                    f.ret = join(f.ret, s.ret)
                    f.raised += s.raised
                    done = jenv(done, s.brk)
                    cur = jenv(s.next, s.cont)
                if cur is not None and st.orelse:
                    s = self.block(st.orelse, fr, cur)
                    f.absorb(s)
                    cur = s.next
                f.next = jenv(cur, done)
                return f
            e0 = {k: v for k, v in env.items()}
            fr.env = e0
            self.bind(st.target, unk(it), fr)
        else:
            e0 = dict(env)
            v = self.ev(st.test, fr)
            b = truth(v)
            if b is False:
                return self.block(st.orelse, fr, env)
            if b is None and tainted(v):
                self.decided = True
        # what the body changes is unknown from its second round on; the first round sees the values before it
        changed = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        s = self.block(st.body, fr, fr.env)
        f.ret, f.raised = s.ret, s.raised
        after = jenv(s.next, s.cont)
        if after is not None:
            e1 = {k: (unk(v) if k in changed and not same(v, env.get(k, U)) else v) for k, v in after.items()}
            if e1 != after:
                s2 = self.block(st.body, fr, dict(e1))
                f.ret = join(f.ret, s2.ret)
                f.raised += s2.raised
                after = jenv(after, jenv(s2.next, s2.cont))
                s.brk = jenv(s.brk, s2.brk)
        if after is not None and not (isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value):
            if st.orelse:
                o = self.block(st.orelse, fr, after)
                f.absorb(o)
                after = o.next
        elif isinstance(st, ast.While) and isinstance(st.test, ast.Constant):
            after = None if s.brk is not None or f.ret is not None else after
        f.next = jenv(after, s.brk)
        return f

    def attempt(self, st, fr, env):
        f = Flow()
        start = dict(env)
        s = self.block(st.body, fr, env)
        module = fr.func.module
        outs = []
        left = []
        for name, line in s.raised:
            for h in st.handlers:
                if self.catches(h, name, module):
                    outs.append((h, name))
                    break
            else:
                left.append((name, line))
        f.ret, f.brk, f.cont = s.ret, s.brk, s.cont
        f.raised = left
        nxt = s.next
        if nxt is not None and st.orelse:
            o = self.block(st.orelse, fr, nxt)
            f.absorb(o)
            nxt = o.next
        f.next = nxt
        for h, name in outs:
            e = jenv(dict(start), None)
            for k, v in (s.next or {}).items():
                e[k] = join(e[k], v) if k in e else unk(v)
            e['$exc'] = V('c', name)
            if h.name:
                e[h.name] = U
            o = self.block(h.body, fr, e)
            f.absorb(o)
            f.next = jenv(f.next, o.next)
        if st.finalbody:
            o = self.block(st.finalbody, fr, f.next if f.next is not None else dict(start))
            if o.next is None:
                return o
            f.ret = join(f.ret, o.ret)
            if f.next is not None:
                f.next = o.next
        return f

    def match(self, st, fr, env):
        f = Flow()
        v = self.ev(st.subject, fr)
        for c in st.cases:
            m = self.pattern(c.pattern, v, fr)
            if m is False:
                continue
            e = dict(env)
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                e[c.pattern.name] = v
            if m is None and tainted(v):
                self.decided = True
            if c.guard is not None:
                fr.env = e
                g = truth(self.ev(c.guard, fr))
                if g is False:
                    continue
                m = m if g else None
            s = self.block(c.body, fr, e)
            f.absorb(s)
            f.next = jenv(f.next, s.next)
            if m:
                return f
        f.next = jenv(f.next, env)
        return f

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchAs):
            return True if p.pattern is None else self.pattern(p.pattern, v, fr)
        if isinstance(p, ast.MatchOr):
            rs = [self.pattern(q, v, fr) for q in p.patterns]
            return True if True in rs else None if None in rs else False
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return (v.v is p.value) if v.k == 'c' else None if v.k == 'u' else False
        if isinstance(p, ast.MatchClass):
            return truth(self.isinst(v, p.cls, fr))
        return None

    def bind(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.k == 'tup' and len(v.v) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.v):
                    self.bind(e, x, fr)
            else:
                for e in t.elts:
                    self.bind(e.value if isinstance(e, ast.Starred) else e, unk(v), fr)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            o = self.ev(t.value, fr)
            if isinstance(t, ast.Subscript):
                k = self.ev(t.slice, fr)
                if o.k == 'dict':
                    if k.k == 'c' and hashable(k.v):
                        o.v[k.v] = v
                    else:
                        o.v.clear()
                        o.k = 'u'
            elif o.k == 'obj':
                o.v[t.attr] = v

    # ---- expressions
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.up
        m = fr.func.module
        e = m.names.get(name)
        if e is None:
            for st in m.tree.body:
                if isinstance(st, ast.ImportFrom) and any(a.name == '*' for a in st.names) and st.module in self.prog.modules:
                    r = self.prog.resolve(st.module, name)
                    if r is not None and r[0] != 'ext':
                        return self.entity(r, self.prog.modules[st.module])
            return V('py', name) if hasattr(builtins, name) else U
        if e[0] == 'import':
            if e[2] is None:
                return V('mod', e[1])
            r = self.prog.resolve(e[1], e[2])
            if r is None or r[0] == 'ext':
                return V('py', e[2]) if e[2] in ('attrgetter', 'itemgetter') else V('ext', f'{e[1]}.{e[2]}')
            return self.entity(r)
        return self.entity(e, m)

    def entity(self, e, m=None):
        if not e:
            return U
        if e[0] == 'func':
            return V('fn', e[1])
        if e[0] == 'class':
            return V('cls', e[1])
        if e[0] == 'record':
            return V('rec', e[1])
        if e[0] == 'assign' and isinstance(e[1], ast.Lambda) and m is not None:
            from .program import Func
            return V('fn', Func(m, e[1]))
        if e[0] == 'assign' and e[1] is not None and m is not None and self.depth < 10:
            from .program import Func
            class F:          # module level frame
                module = m
            try:
                self.depth += 1
                return self.ev(e[1], Frame(F, {}))
            except Raises:
                return U
            finally:
                self.depth -= 1
        return U

    def ev(self, n, fr):
        T = type(n)
        if T is ast.Constant:
            return const(n.value)
        if T is ast.Name:
            return self.lookup(n.id, fr)
        if T in (ast.Tuple, ast.List, ast.Set):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                out = []
                for e in n.elts:
                    v = self.ev(e.value if isinstance(e, ast.Starred) else e, fr)
                    if isinstance(e, ast.Starred):
                        if v.k != 'tup':
                            return unk(v)
                        out += v.v
                    else:
                        out.append(v)
                return V('tup', out)
            return V('tup', [self.ev(e, fr) for e in n.elts])
        if T is ast.Dict:
            d, good = {}, True
            vs = []
            for k, v in zip(n.keys, n.values):
                vv = self.ev(v, fr)
                vs.append(vv)
                kk = self.ev(k, fr) if k is not None else None
                if kk is not None and kk.k == 'c' and hashable(kk.v):
                    d[kk.v] = vv
                else:
                    good = False
            return V('dict', d) if good else unk(*vs)
        if T is ast.IfExp:
            b = self.ev(n.test, fr)
            t = truth(b)
            if t is not None:
                return self.ev(n.body if t else n.orelse, fr)
            if tainted(b):
                self.decided = True
            return self.either([n.body, n.orelse], fr)
        if T is ast.BoolOp:
            last = None
            vs = []
            for i, e in enumerate(n.values):
                try:
                    v = self.ev(e, fr)
                except Raises:
                    if any(truth(x) is None for x in vs):
                        return unk(*vs)
                    raise
                t = truth(v)
                if t is not None and t == isinstance(n.op, ast.Or):
                    return v if all(truth(x) is not None for x in vs) else (
                        const(t, tainted(v)) if v.k == 'c' and isinstance(v.v, bool) else unk(v, *vs))
                vs.append(v)
                last = v
            if all(truth(x) is not None for x in vs):
                return last
            return unk(*vs)
        if T is ast.UnaryOp:
            v = self.ev(n.operand, fr)
            if isinstance(n.op, ast.Not):
                t = truth(v)
                return const(not t, tainted(v)) if t is not None else unk(v)
            if v.k == 'c':
                try:
                    return const(-v.v if isinstance(n.op, ast.USub) else +v.v if isinstance(n.op, ast.UAdd) else ~v.v, v.t)
                except TypeError:
                    raise Raises('TypeError', n.lineno)
            return unk(v)
        if T is ast.BinOp:
            return self.arith(n.op, self.ev(n.left, fr), self.ev(n.right, fr), n)
        if T is ast.Compare:
            return self.compare(n, fr)
        if T is ast.Attribute:
            return self.attribute(self.ev(n.value, fr), n.attr, n)
        if T is ast.Subscript:
            return self.subscript(self.ev(n.value, fr), n, fr)
        if T is ast.Call:
            return self.callexpr(n, fr)
        if T is ast.Lambda:
            from .program import Func
            return V('fn', Func(fr.func.module, n), x=fr)
        if T is ast.JoinedStr:
            vs = []
            out = []
            for e in n.values:
                v = self.ev(e.value, fr) if isinstance(e, ast.FormattedValue) else const(e.value)
                vs.append(v)
                if v.k == 'c' and not (isinstance(e, ast.FormattedValue) and (e.format_spec or e.conversion > 0)):
                    out.append(str(v.v))
                else:
                    out.append(None)
            return const(''.join(out), any(tainted(v) for v in vs)) if None not in out else unk(*vs)
        if T is ast.NamedExpr:
            v = self.ev(n.value, fr)
            self.bind(n.target, v, fr)
            return v
        if T in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comp(n, fr)
        if T is ast.Starred:
            return self.ev(n.value, fr)
        if T is ast.Slice:
            return V('slice', n)
        if T in (ast.Await, ast.Yield, ast.YieldFrom):
            return unk(self.ev(n.value, fr)) if n.value is not None else U
        return U

    def either(self, exprs, fr):
        out, err = None, None
        for e in exprs:
            try:
                out = join(out, self.ev(e, fr))
            except Raises as x:
                err = x
        if out is None:
            raise err
        return out

    def comp(self, n, fr):
        inner = Frame(fr.func, dict(fr.env), fr.up)
        known = None
        lit = None
        for g in n.generators:
            it = self.ev(g.iter, inner)
            if it.k == 'tup' and len(n.generators) == 1 and len(it.v) <= 12:
                lit = it
            else:
                self.bind(g.target, unk(it), inner)
        if lit is not None and not isinstance(n, ast.DictComp):
            out, sure = [], True
            for x in lit.v:
                self.bind(n.generators[0].target, x, inner)
                keep = True
                for c in n.generators[0].ifs:
                    t = truth(self.ev(c, inner))
                    keep = keep and t if t is not None and keep is not None else (None if keep else keep)
                if keep is False:
                    continue
                if keep is None:
                    sure = False
                    continue
                out.append(self.ev(n.elt, inner))
            return V('tup', out) if sure else unk(*lit.v)
        if lit is not None:
            self.bind(n.generators[0].target, unk(lit), inner)
        for g in n.generators:
            for c in g.ifs:
                v = self.ev(c, inner)
                if truth(v) is False:
                    return V('tup', [])
        if isinstance(n, ast.DictComp):
            return unk(self.ev(n.key, inner), self.ev(n.value, inner))
        return unk(self.ev(n.elt, inner))

    def equal(self, a, b):
        if a.k == 'c' and b.k == 'c':
            return a.v == b.v
        if a.k == 'u' or b.k == 'u':
            return None
        if a.k == 'tup' and b.k == 'tup':
            if len(a.v) != len(b.v):
                return False
            rs = [self.equal(x, y) for x, y in zip(a.v, b.v)]
            return False if False in rs else None if None in rs else True
        if a.k != b.k:
            return False if 'obj' not in (a.k, b.k) and 'ext' not in (a.k, b.k) else None
        return True if a.v is b.v else None

    def compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        vals = [left]
        truths = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            vals.append(right)
            truths.append(self.cmp1(op, left, right, n))
            left = right
        t = any(tainted(v) for v in vals)
        if False in truths:
            return const(False, t)
        if None in truths:
            return UT if t else U
        return const(True, t)

    def cmp1(self, op, a, b, n):
        O = type(op)
        if O in (ast.Eq, ast.NotEq):
            e = self.equal(a, b)
            return e if e is None or O is ast.Eq else not e
        if O in (ast.Is, ast.IsNot):
            if a.k == 'c' and b.k == 'c':
                r = a.v is b.v or (a.v == b.v and type(a.v) is type(b.v))
            elif 'u' in (a.k, b.k):
                # an argument the caller gives is not None unless it is said to be
                return None
            else:
                r = a.k == b.k and a.v is b.v
            return r if O is ast.Is else not r
        if O in (ast.In, ast.NotIn):
            if b.k == 'tup':
                rs = [self.equal(a, x) for x in b.v]
                r = True if True in rs else None if None in rs else False
            elif b.k == 'dict' and a.k == 'c':
                r = hashable(a.v) and a.v in b.v
            elif b.k == 'c' and a.k == 'c':
                try:
                    r = a.v in b.v
                except TypeError:
                    raise Raises('TypeError', n.lineno)
            else:
                return None
            return r if r is None or O is ast.In else not r
        if a.k == 'c' and b.k == 'c':
            try:
                return {ast.Lt: a.v.__lt__, ast.LtE: a.v.__le__, ast.Gt: a.v.__gt__, ast.GtE: a.v.__ge__}[O](b.v) is True \
                    if type(a.v) is type(b.v) or isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)) and \
                    not cmp_err(O, a.v, b.v) else self.numcmp(O, a.v, b.v, n)
            except (TypeError, AttributeError):
                raise Raises('TypeError', n.lineno)
        return None

    def numcmp(self, O, x, y, n):
        try:
            return bool({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[O]())
        except TypeError:
            raise Raises('TypeError', n.lineno)

    def arith(self, op, a, b, n):
        if a.k == 'c' and b.k == 'c':
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Div: o.truediv,
                 ast.Mod: o.mod, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor}.get(type(op))
            if f is None:
                return unk(a, b)
            try:
                r = f(a.v, b.v)
            except TypeError:
                raise Raises('TypeError', n.lineno)
            except (ZeroDivisionError, ValueError):
                return unk(a, b)
            if isinstance(r, (str, tuple, list)) and len(r) > 10000:
                return unk(a, b)
            return const(r, a.t or b.t)
        if a.k == 'tup' and b.k == 'tup' and isinstance(op, ast.Add):
            return V('tup', a.v + b.v)
        return unk(a, b)

    def attribute(self, o, attr, n):
        if o.k == 'obj':
            if attr in o.v:
                return o.v[attr]
            if o.x and attr in o.x:         # attributes the object is known not to have
                raise Raises('AttributeError', n.lineno)
            return U
        if o.k == 'mod':
            r = self.prog.resolve(o.v, attr) if o.v in self.prog.modules else None
            if r is not None and r[0] != 'ext':
                return self.entity(r, self.prog.modules[o.v])
            if attr in ('attrgetter', 'itemgetter'):
                return V('py', attr)
            return V('ext', f'{o.v}.{attr}')
        if o.k == 'ext':
            return V('ext', f'{o.v}.{attr}')
        if o.k == 'c':
            if not hasattr(o.v, attr):
                raise Raises('AttributeError', n.lineno)
            return V('meth', (o, attr), o.t)
        if o.k in ('tup', 'dict'):
            if not hasattr([], attr) and not hasattr({}, attr) and not hasattr(set(), attr):
                raise Raises('AttributeError', n.lineno)
            return V('meth', (o, attr), tainted(o))
        if o.k == 'fn':
            return U
        if o.k == 'cls':
            m = self.prog.method(o.v, attr)
            return V('fn', m) if m is not None else U
        return unk(o)

    def subscript(self, o, n, fr):
        k = self.ev(n.slice, fr)
        if o.k == 'tup' and k.k == 'c':
            if isinstance(k.v, bool) or isinstance(k.v, int):
                try:
                    v = o.v[k.v]
                except IndexError:
                    raise Raises('IndexError', n.lineno)
                return v
            raise Raises('TypeError', n.lineno)
        if o.k == 'dict' and k.k == 'c':
            if hashable(k.v) and k.v in o.v:
                return o.v[k.v]
            raise Raises('KeyError', n.lineno)
        if o.k == 'c':
            if k.k == 'c':
                try:
                    return const(o.v[k.v], o.t or k.t)
                except (TypeError, IndexError, KeyError) as e:
                    raise Raises(type(e).__name__, n.lineno)
            if not hasattr(o.v, '__getitem__'):
                raise Raises('TypeError', n.lineno)
        return unk(o, k)

    def isinst(self, v, c, fr):
        cs = c.elts if isinstance(c, ast.Tuple) else [c]
        rs = []
        for x in cs:
            name = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            rs.append(self.isinst1(v, name))
        t = tainted(v)
        if True in rs:
            return const(True, t)
        return const(False, t) if None not in rs else unk(v)

    def isinst1(self, v, name):
        py = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set,
              'complex': complex, 'Integral': int, 'Real': (int, float), 'Number': (int, float, complex), 'Mapping': dict,
              'Sequence': (list, tuple, str), 'ndarray': (), 'integer': (), 'floating': ()}
        if v.k == 'c' and name in py:
            return isinstance(v.v, py[name]) if py[name] != () else False
        if v.k == 'tup' and name in py:
            return name in ('list', 'tuple', 'Sequence')
        if v.k == 'dict' and name in py:
            return name in ('dict', 'Mapping')
        if v.k == 'obj' and '__class__' in v.v:
            return v.v['__class__'].v == name
        return None

    def callexpr(self, n, fr):
        name = n.func.id if isinstance(n.func, ast.Name) else None
        if name == 'isinstance' and len(n.args) == 2:
            return self.isinst(self.ev(n.args[0], fr), n.args[1], fr)
        f = self.ev(n.func, fr)
        args, kw, loose = [], {}, False
        for a in n.args:
            v = self.ev(a, fr)
            if isinstance(a, ast.Starred):
                if v.k == 'tup':
                    args += v.v
                else:
                    loose = True
                    args.append(v)
            else:
                args.append(v)
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if v.k == 'dict':
                    kw.update({a: b for a, b in v.v.items() if isinstance(a, str)})
                else:
                    loose = True
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.apply(f, args, kw, n, loose)

    def apply(self, f, args, kw, n, loose=False):
        every = args + list(kw.values())
        if f.k == 'fn':
            if not loose and (any(tainted(v) for v in every) or f.x is not None or closed(every)):
                return self.call(f.v, args, kw, closure=f.x)
            return unk(*every)
        if f.k == 'py':
            return self.builtin(f.v, args, kw, n)
        if f.k == 'meth':
            return self.method(f.v[0], f.v[1], args, kw, n)
        if f.k == 'c':
            raise Raises('TypeError', n.lineno)          # None() and the like
        if f.k in ('tup', 'dict'):
            raise Raises('TypeError', n.lineno)
        if f.k == 'ag':
            if f.v is not None and f.v not in self.attrs:
                raise Raises('AttributeError', n.lineno)
            return UT
        if f.k == 'ext' and f.v.rsplit('.', 1)[-1] in ('empty', 'zeros', 'arange') and args and args[0].k == 'c' and (
                args[0].v is None or isinstance(args[0].v, str)):
            raise Raises('TypeError', n.lineno)
        if f.k == 'ext' and f.v in ('copy.copy', 'copy.deepcopy') and args:
            return args[0]
        if isinstance(n.func, ast.Attribute) and f.k == 'u':
            # a method of an unknown object: the package's own, when the name says which
            if any(tainted(v) for v in args) or any(tainted(v) for v in kw.values()):
                return self.bymethod(n.func.attr, args, kw, loose)
        return unk(*every)

    def bymethod(self, attr, args, kw, loose):
        own = [c for m in self.prog.modules.values() for e in m.names.values() if e[0] == 'class'
               for c in [e[1]] if attr in c.methods]
        if loose or len(own) != 1:
            return UT
        return self.call(own[0].methods[attr], args, kw, selfv=U)

    def builtin(self, name, args, kw, n):
        a = args
        if name == 'getattr' and len(a) >= 2:
            if a[1].k == 'c':
                try:
                    if a[0].k in ('u', 'cls', 'obj', 'rec') and a[1].v not in self.attrs and tainted(a[1]):
                        raise Raises('AttributeError', n.lineno)
                    return self.attribute(a[0], a[1].v, n)
                except Raises:
                    if len(a) > 2:
                        return a[2]
                    raise
            return unk(*a)
        if name == 'hasattr' and len(a) == 2 and a[1].k == 'c':
            if a[0].k == 'obj':
                return const(a[1].v in a[0].v, True) if a[1].v in a[0].v or (a[0].x and a[1].v in a[0].x) else UT
            if a[0].k in ('c', 'tup', 'dict'):
                return const(hasattr(a[0].v, a[1].v), True)
            return unk(*a)
        if name == 'attrgetter':
            return V('ag', a[0].v if len(a) == 1 and a[0].k == 'c' else None, any(tainted(x) for x in a))
        if name == 'len' and len(a) == 1:
            if a[0].k in ('tup', 'dict'):
                return const(len(a[0].v))
            if a[0].k == 'c':
                try:
                    return const(len(a[0].v), a[0].t)
                except TypeError:
                    raise Raises('TypeError', n.lineno)
            return unk(*a)
        if name in ('tuple', 'list', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
            if len(a) == 1 and a[0].k == 'tup':
                return a[0]
            if len(a) == 1 and a[0].k == 'dict':
                return V('tup', [const(k) for k in a[0].v])
            return V('tup', []) if not a else unk(*a)
        if name == 'dict':
            if not a:
                return V('dict', {k: v for k, v in kw.items() if k != '**'}) if '**' not in kw else unk(*kw.values())
            if a[0].k == 'dict':
                return V('dict', dict(a[0].v, **kw))
            if a[0].k == 'tup' and all(x.k == 'tup' and len(x.v) == 2 and x.v[0].k == 'c' for x in a[0].v):
                return V('dict', {x.v[0].v: x.v[1] for x in a[0].v})
            return unk(*a)
        if name == 'zip' and all(x.k == 'tup' for x in a):
            return V('tup', [V('tup', list(r)) for r in zip(*[x.v for x in a])])
        if name == 'enumerate' and len(a) == 1 and a[0].k == 'tup':
            return V('tup', [V('tup', [const(i), x]) for i, x in enumerate(a[0].v)])
        if name == 'range' and all(x.k == 'c' and isinstance(x.v, int) for x in a):
            r = range(*[x.v for x in a])
            return V('tup', [const(i) for i in r]) if len(r) <= 12 else U
        if name == 'range' and any(x.k == 'c' and not isinstance(x.v, int) for x in a):
            raise Raises('TypeError', n.lineno)
        if name in ('any', 'all') and len(a) == 1 and a[0].k == 'tup':
            ts = [truth(x) for x in a[0].v]
            t = any(tainted(x) for x in a[0].v)
            if name == 'any':
                return const(True, t) if True in ts else const(False, t) if None not in ts else unk(*a[0].v)
            return const(False, t) if False in ts else const(True, t) if None not in ts else unk(*a[0].v)
        if name == 'next' and a and a[0].k == 'tup':
            if a[0].v:
                return a[0].v[0]
            if len(a) > 1:
                return a[1]
            raise Raises('StopIteration', n.lineno)
        if name in ('str', 'int', 'float', 'bool', 'abs', 'repr', 'type', 'callable') and len(a) == 1 and a[0].k == 'c' and name in (
                'str', 'int', 'float', 'bool', 'abs', 'repr'):
            try:
                return const(getattr(builtins, name)(a[0].v), a[0].t)
            except (TypeError, ValueError) as e:
                raise Raises(type(e).__name__, n.lineno)
        if name == 'max' or name == 'min':
            if len(a) > 1 and all(x.k == 'c' for x in a):
                try:
                    return const((max if name == 'max' else min)(x.v for x in a), any(x.t for x in a))
                except TypeError:
                    raise Raises('TypeError', n.lineno)
        return unk(*(a + list(kw.values())))

    def method(self, o, attr, args, kw, n):
        if o.k == 'c' and all(x.k == 'c' for x in args) and not kw:
            if isinstance(o.v, str) and attr in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'casefold', 'title', 'capitalize',
                                                 'find', 'index', 'replace', 'split', 'isdigit', 'isalpha', 'count'):
                try:
                    return const(getattr(o.v, attr)(*[x.v for x in args]), True)
                except (TypeError, ValueError) as e:
                    raise Raises(type(e).__name__, n.lineno)
            return unk(o, *args)
        if o.k == 'c' and isinstance(o.v, str) and attr in ('startswith', 'endswith') and args and args[0].k == 'tup' and all(
                x.k == 'c' for x in args[0].v):
            return const(getattr(o.v, attr)(tuple(x.v for x in args[0].v)), True)
        if o.k == 'tup':
            if attr == 'index' and args:
                rs = [self.equal(args[0], x) for x in o.v]
                if True in rs and None not in rs[:rs.index(True)]:
                    return const(rs.index(True), True)
                if not any(r is None for r in rs) and True not in rs:
                    raise Raises('ValueError', n.lineno)
                return UT
            if attr == 'append' and len(args) == 1:
                o.v.append(args[0])
                return const(None)
            if attr == 'count' and args:
                rs = [self.equal(args[0], x) for x in o.v]
                return const(sum(r is True for r in rs), True) if None not in rs else UT
            if attr in ('extend', 'insert', 'pop', 'clear', 'add', 'remove', 'sort', 'reverse'):
                o.k, o.v = 'u', None
                return U
            if attr == 'copy':
                return V('tup', list(o.v))
            return unk(o, *args)
        if o.k == 'dict':
            if attr == 'get' and args and args[0].k == 'c':
                if hashable(args[0].v) and args[0].v in o.v:
                    return o.v[args[0].v]
                return args[1] if len(args) > 1 else const(None, True)
            if attr == 'keys':
                return V('tup', [const(k) for k in o.v])
            if attr == 'values':
                return V('tup', list(o.v.values()))
            if attr == 'items':
                return V('tup', [V('tup', [const(k), v]) for k, v in o.v.items()])
            if attr == 'copy':
                return V('dict', dict(o.v))
            if attr in ('pop', 'setdefault') and args and args[0].k == 'c' and len(args) == 1 and attr == 'pop':
                if hashable(args[0].v) and args[0].v in o.v:
                    return o.v[args[0].v]
                raise Raises('KeyError', n.lineno)
            return unk(o, *args)
        return unk(o, *args)


def cmp_err(O, x, y):
    return False


def closed(vs):
    """a helper applied to constants only can be evaluated"""
    return bool(vs) and all(v.k in ('c', 'tup') for v in vs)


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def truth(v):
    if v.k == 'c':
        return bool(v.v)
    if v.k in ('tup', 'dict'):
        return bool(v.v)
    if v.k in ('fn', 'cls', 'rec', 'ag', 'mod', 'meth'):
        return True
    return None


def own(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(n))


# ---- the selectors: function -> (what is bound, values that must be refused, values that must be accepted)
NAMES = [NOBODY, '', 'none']
SPIN = [2, 7, -2, 'up', None]
ARRAYLESS = V('obj', {'__class__': const('ndarray')}, True, x={'up', 'dw'})


def sel(*kv):
    return dict(kv)


def sparse(fmt):
    return V('obj', {'format': const(fmt, True)}, True)


def table():
    T = []

    def one(q, param, bad, good, **fixed):
        for b in bad:
            T.append((q, param, {param: b, **fixed}, False, repr(b)))
        for g in good:
            T.append((q, param, {param: g, **fixed}, True, repr(g)))
    one('edpyt.espace.get_espace_dim', 'symmetry', NAMES + ['s', 'sx', 'nn'], ['sz', 'N'])
    one('edpyt.espace.build_espace', 'symmetry', NAMES + ['s', 'sx', 'nn'], ['sz', 'N'])
    for q in ('get_cdg_sector', 'get_c_sector'):
        one(f'edpyt.sector.{q}', 'ispin', SPIN + [-1], [0, 1])
    one('edpyt.tridiag.eigh_tridiagonal', 'select', [1, 3, -1, 'i', None], [0, 2])
    one('edpyt.lanczos.sl_solve', 'select', [1, 3, -1, 'i', None], [0, 2])
    T.append(('edpyt.lanczos.sl_solve', 'v0', {'v0': None, 'select': 0, 'eigvals_only': False}, False, 'no start vector with eigenvectors asked for'))
    T.append(('edpyt.lanczos.sl_solve', 'v0', {'v0': None, 'select': 0, 'eigvals_only': True}, True, 'no start vector, eigenvalues only'))
    one('edpyt.lookup.binrep', 'format', NAMES + ['int'], ['array', 'arr', 'string', 'str'])
    for q in ('gf_lanczos.build_gf_lanczos', 'gf2_lanczos.build_gf_offdiag', 'gf2_lanczos.build_gf2_lanczos'):
        one(f'edpyt.{q}', 'repr', NAMES + ['c', 'spectral'], ['cf', 'sp'])
        one(f'edpyt.{q}', 'ispin', SPIN + [-1], [0, 1])
    for q in ('gf_exact.build_gf_exact', 'gf2_exact.build_gf2_exact'):
        one(f'edpyt.{q}', 'ispin', SPIN + [-1], [0, 1])
    for q in ('sqtunneling.project_add', 'sqtunneling.project_sub'):
        one(f'edpyt.{q}', 'ispin', SPIN + [-1], [0, 1])
    for q in ('cotunneling.project_add', 'cotunneling.project_sub'):
        for p, o in (('ispin_i', 'ispin_j'), ('ispin_j', 'ispin_i')):
            one(f'edpyt.{q}', p, SPIN + [-1], [0, 1], **{o: 0})
    one('edpyt.dmft.DMFT.solve', 'mixing_method', NAMES + ['lin', 'Broyden2'], ['linear', 'broyden'])
    one('edpyt.cotnl.build_rate_and_transition_matrices', 'integrate_method', NAMES, ['approximate', 'integrate', 'exact'])
    for q in ('UPmultiply', 'DWmultiply', 'Multiply'):
        T.append((f'edpyt.psparse.{q}', 'X.format', {'X': sparse('csc')}, False, "'csc'"))
        T.append((f'edpyt.psparse.{q}', 'X.format', {'X': sparse('csr')}, True, "'csr'"))
    T.append(('edpyt.fit_cg.get_initial_bath', 'p, nbath', {'p': None, 'nbath': None}, False, 'neither'))
    T.append(('edpyt.fit_cg.get_initial_bath', 'p, nbath', {'p': None, 'nbath': 4}, True, 'nbath=4'))
    T.append(('edpyt.fit_cg.get_initial_bath', 'p, nbath', {'p': V('obj', {'__class__': const('ndarray')}, True), 'nbath': None}, True, 'p'))
    T.append(('edpyt.fit_cg.get_initial_bath', 'p, nbath', {'p': V('obj', {'__class__': const('ndarray')}, True), 'nbath': 4}, False, 'both'))
    one('edpyt.build_mb_ham.build_mb_ham', 'V', [None, 3.0, [1.0, 2.0], 'U'], [])
    T.append(('edpyt.build_mb_ham.build_mb_ham', 'V', {'V': V('obj', {'__class__': const('ndarray')}, True)}, True, 'an array'))
    T.append(('edpyt.build_mb_ham.build_mb_ham', 'V', {'V': V('obj', {'__class__': const('dict')}, True)}, True, 'a dictionary'))
    T.append(('edpyt.ham_hopping.build_ham_hopping', 'sct.states', {'sct': V('obj', {'states': ARRAYLESS}, True)}, False, 'states without spin'))
    for q in ('cotnl', 'sqtnl'):
        T.append((f'edpyt.{q}.build_transition_elements', 'N, egs', {'N': None, 'egs': None}, False, 'neither'))
        T.append((f'edpyt.{q}.build_transition_elements', 'N, egs', {'N': 2, 'egs': None}, True, 'N'))
    T.append(('edpyt.cotunneling._Sigma.__getattr__', 'name', {'name': NOBODY}, False, NOBODY))
    T.append(('edpyt.cotnl.Gf2.y', 'self', {}, False, 'a base class instance'))
    return T


def fresh(v, t):
    if isinstance(v, V):
        return V(v.k, {k: fresh(x, x.t) for k, x in v.v.items()} if v.k == 'obj' else v.v, v.t, v.x)
    return const(v, t)


def outcome(prog, attrs, f, bound, what):
    r = Run(prog, attrs)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    if any(p not in names for p in bound):
        return 'missing', next(p for p in bound if p not in names)
    kw = {p: fresh(v, p in what) for p, v in bound.items()}
    for n in names:
        if n not in kw:
            kw[n] = U
    try:
        r.call(f, [], kw)
    except Raises as e:
        return 'raises', f'{e.name} at line {e.line}'
    except (Giveup, RecursionError) as e:
        return 'maybe', str(e)
    return ('maybe return' if r.unsure else 'returns'), ''


def swallowed(ctx):
    """an exception a function raises itself must not be taken by a handler of the same function that goes on as if nothing was wrong"""
    r = Run(ctx.C.prog, set())
    for q, f in sorted(ctx.C.funcs.items()):
        if isinstance(f.node, ast.Lambda) or not hasattr(f.node, 'body') or q not in ctx.R.funcs:
            continue
        bad = False
        tries = [t for t in own(f.node) if isinstance(t, ast.Try)]
        for t in tries:
            for n in [x for st in t.body for x in [st, *own(st)] if isinstance(x, ast.Raise)]:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                name = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', None)
                if name is None:
                    continue
                for h in t.handlers:
                    if r.catches(h, name, f.module):
                        named = h.type is not None and name in {getattr(x, 'id', getattr(x, 'attr', '')) for x in (
                            h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                        ends = any(isinstance(x, (ast.Raise, ast.Return)) for st in h.body for x in [st, *own(st)])
                        if not named and not ends:
                            bad = True
                            ctx.violated('refusal swallowed', f'{q} {name}', f'{f.module.path}:{n.lineno}',
                                         f'{name} is raised here and taken by the handler at line {h.lineno}, which goes on')
                        break
        if tries and not bad:
            ctx.holds(f'handlers {q}', 'no handler takes an exception the function raises itself, unless it names it')


def run(ctx):
    swallowed(ctx)
    prog = ctx.C.prog
    attrs = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for x in ast.walk(n):
                    if isinstance(x, ast.FunctionDef):
                        attrs.add(x.name)
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        attrs.add(x.attr)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        attrs.add(x.id)
    seen = {}
    for q, what, bound, accepted, shown in table():
        f = ctx.C.funcs.get(q)
        name = f'{q} {what}={shown}'
        if f is None:
            ctx.undecided_(name, 'the function does not exist any more')
            continue
        st, how = outcome(prog, attrs, f, bound, {w.split('.')[0] for w in what.split(', ')})
        if st in ('missing', 'maybe'):
            ctx.undecided_(name, f'{st}: {how}')
        elif st == 'maybe return' and not accepted:
            ctx.undecided_(name, 'a test on an unknown made from the selector decides')
        elif (st == 'raises') == (not accepted):
            ctx.holds(name, f'refused: {how}' if st == 'raises' else 'accepted')
        elif accepted:
            ctx.violated('documented choice refused', f'{q} {what}', f'{f.module.path}:{f.node.lineno}',
                         f'{what} = {shown} always raises ({how})')
        else:
            ctx.violated('invalid choice accepted', f'{q} {what}', f'{f.module.path}:{f.node.lineno}',
                         f'{what} = {shown} reaches a normal exit')
