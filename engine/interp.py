"""Value-flow summaries of functions in a canonical normal form.

The summariser walks the syntax tree of a function and its helpers once and
records, for symbolic parameters, the returned value, every write to an object
the caller can see, every call with effects, and the conditions under which an
error is raised.  Nothing is executed.
"""
import ast
from .terms import *
from .values import *
from .arrays import *
from .program import Func, Class, Record
from . import extern
from .liveness import Liveness
from .effects import Effects, COMM
from .commute import commute, unaffected, added

_LIVE = {}


def liveness(node):
    r = _LIVE.get(id(node))
    if r is None or r[0] is not node:
        r = _LIVE[id(node)] = (node, Liveness(node))
    return r[1]


MAXDEPTH = 14


class State:
    __slots__ = ('env', 'attrs')

    def __init__(self, env, attrs):
        self.env, self.attrs = env, attrs


class Frame:
    def __init__(self, module, func, env, parent_env=None):
        self.module = module
        self.func = func
        self.env = env
        self.parent = parent_env      # closure chain (list of env dicts)
        self.rets = []
        self.loops = []
        self.yields = None
        self.locals = set()


class Scope:
    __slots__ = ('id', 'pc', 'dead')

    def __init__(self, i):
        self.id = i
        self.pc = ()
        self.dead = None


def merging(f):
    """joins paths: contents written on either of them stay visible"""
    def g(self, *a, **k):
        self.merging += 1
        try:
            return f(self, *a, **k)
        finally:
            self.merging -= 1
    return g


def fixed_list(prog, c, attr):
    """number of items of the list that __init__ leaves in an attribute and nothing else rebinds or resizes; where the
    current source does not tell, what the reference says (its __init__ is compared on its own)"""
    key = (c.qual, attr)
    if key not in prog.fixed:
        prog.fixed[key] = None
        prog.fixed[key] = _fixed_list(prog, c, attr)
        if prog.fixed[key] is None and getattr(prog, 'reference', None) is not None:
            d = prog.reference.find(c.qual)
            if d is not None and hasattr(d, 'methods'):
                prog.fixed[key] = fixed_list(prog.reference, d, attr)
    return prog.fixed[key]


def _fixed_list(prog, c, attr):
    init = c.methods.get('__init__')
    if init is None or not init.node.args.args:
        return None
    bound = False
    for m in c.methods.values():
        for s in ast.walk(m.node):
            if isinstance(s, ast.Attribute) and s.attr == attr and not isinstance(s.ctx, ast.Load):
                if m is not init:
                    return None
                bound = True
            if m is not init and isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Attribute) \
                    and s.func.value.attr == attr and s.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear'):
                return None
    if not bound:
        return None
    lit = [s.value for s in ast.walk(init.node) if isinstance(s, ast.Assign)
           and any(isinstance(y, ast.Attribute) and y.attr == attr and isinstance(y.ctx, ast.Store) for x in s.targets for y in ast.walk(x))]
    if all(not isinstance(v, (ast.List, ast.ListComp, ast.Name, ast.Tuple)) and not (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple')) for v in lit):
        return None
    ip = Interp(prog, {})
    try:
        ip.summarize(init, cls=c)
        v = ip.attrs.get((sym(init.node.args.args[0].arg), attr))
        its = ip.const_items(v) if v is not None else None
        if its is None and isinstance(v, Ref) and ip.heap[v.id].kind == 'list':
            o = ip.heap[v.id]
            if all(e.guard is ONE and not e.binders and e.op in ('app', '=') for e in o.log) and o.base.op == 'list' \
                    and all(x.op == 'it' for x in o.base.args):
                return len(o.base.args) + sum(e.op == 'app' for e in o.log)
        if its is None and v is not None:
            t = ip.termof(v)
            if t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'stream' and len(t.args[0].args[1]) == 3:
                vs, p = open_(t.args[0].args[2], t.args[0].args[0], t.args[0].args[1])
                n = const_value(p[0][0][1]) if len(vs) == 1 and p[1] is ONE else None
                return int(n) if n is not None and n <= 4 else None
        return len(its) if its is not None and len(its) <= 4 else None
    except (Unsupported, Rebound, TooBig, RecursionError):
        return None


def events(v):
    """latest calls on an object none of which depends on another"""
    return list(v.args) if v.op == 'eff' else [v]


def frontier(es):
    es = sorted(set(es), key=lambda e: e.dig)
    return None if not es else es[0] if len(es) == 1 else mk('eff', *es)


def method_of(e):
    if e.op == 'call' and isinstance(e.args[0], Term) and e.args[0].op == 'attr':
        return e.args[0].args[1]
    return None


def before(e):
    """calls that an earlier version of the object, on which this call was made, had seen"""
    if method_of(e) is None:
        return []
    r = e.args[0].args[0]
    return events(r.args[1]) if r.op == 'st' else []


def closure(es):
    out, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if e not in out:
            out.add(e)
            todo += before(e)
    return out


def relevant(es, keep):
    out, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if method_of(e) is None or keep(e):
            out.add(e)
        else:
            todo += before(e)
    return [e for e in out if not any(e in closure(before(x)) for x in out if x is not e)]


class Interp:
    def __init__(self, prog, opaque=None, scalars=()):
        self.prog = prog
        self.opaque = opaque or {}        # qual -> canonical name
        self.scalars = set(scalars)
        self.effect_cache = {}
        self.reset()

    array_state = True

    def reset(self):
        self.exclcache = {}
        self.merging = 0
        self.heap = {}
        self.nid = 2
        self.sid = 0
        self.scopes = []
        self.attrs = {}
        self.extmap = {}
        self.frames = []
        self.stack = []
        self.facts = {}
        self.notes = set()
        self.selfcls = {}
        self.push_scope()
        self.calls = self._obj(0, 'log', mk('calls'))
        self.raises = self._obj(1, 'log', mk('raises'))
        self.push_scope()
        self.modcache = {}
        self.reads = set()
        self.lamdepth = 0
        self.snapcache = {}

    # ------------------------------------------------------------ heap
    def _obj(self, i, kind, base, **kw):
        o = Obj(i, kind, base, self.scopes[-1].id, self.scopes[-1].pc, **kw)
        self.heap[i] = o
        return o

    def new(self, kind, base, **kw):
        self.nid += 1
        self._obj(self.nid, kind, base, **kw)
        return Ref(self.nid)

    def ext(self, term):
        """heap object standing for a term the caller owns"""
        r = self.extmap.get(term)
        if r is None:
            self.nid += 1
            o = Obj(self.nid, 'ext', term, 0, (), root=term)
            self.heap[self.nid] = o
            r = self.extmap[term] = Ref(self.nid)
        return r

    def push_scope(self):
        self.sid += 1
        s = Scope(self.sid)
        self.scopes.append(s)
        return s

    @property
    def pc(self):
        return self.scopes[-1].pc

    @pc.setter
    def pc(self, v):
        self.scopes[-1].pc = v

    @property
    def dead(self):
        return self.scopes[-1].dead

    def pcterm(self, conj=None):
        return prod(*(self.scopes[-1].pc if conj is None else conj))

    def relpc(self, obj):
        """path condition relative to the creation of obj"""
        pc = self.scopes[-1].pc
        if obj.conj:
            pc = tuple(c for c in pc if c not in obj.conj)
        return prod(*pc)

    def log(self, obj, op, idx, val, loc=None):
        if self.dead:
            return
        idx = tuple(idx)
        if idx and idx[0].op == 'slice' and op != 'call' and isinstance(obj.base, Term):
            idx = (slice_bounds(obj.base, idx[0]),) + idx[1:]
        obj.log.append(Entry([], self.relpc(obj), op, tuple(idx), val, loc or self.loc()))

    def loc(self):
        if self.frames:
            f = self.frames[-1]
            return f'{f.module.relpath}:{getattr(self, "line", 0)}'
        return ''

    def mark(self):
        return {i: len(o.log) for i, o in self.heap.items()}

    def segment(self, mark):
        """entries since mark, on objects that existed then"""
        for i, n in mark.items():
            o = self.heap[i]
            if len(o.log) > n:
                yield o, o.log[n:]

    def rollback(self, mark, attrs):
        for i in [i for i in self.heap if i not in mark]:
            o = self.heap.pop(i)
            if o.kind == 'ext':
                self.extmap.pop(o.root, None)
        for i, n in mark.items():
            del self.heap[i].log[n:]
        self.attrs = dict(attrs)

    def ext_objects_new(self, mark):
        return [o for i, o in self.heap.items() if i not in mark and o.kind == 'ext']

    def close_scope(self, mark, binder=None, run=None, sub=None):
        """leave the innermost scope: entries get the outer path condition, the
        loop binder and the solved loop variables"""
        closed = self.scopes.pop()
        for i, o in self.heap.items():
            if o.scope == closed.id and i not in mark:
                # created by this statement of the enclosing scope
                o.scope, o.conj = self.scopes[-1].id, self.scopes[-1].pc
        objs = [(o, o.log[n:], n) for i, n in mark.items() for o in [self.heap[i]] if len(o.log) > n]
        objs += [(o, list(o.log), 0) for o in self.ext_objects_new(mark) if o.log]
        if sub:
            # objects created inside may still be referenced: their contents change as well
            for i, o in self.heap.items():
                if i not in mark and o.kind != 'ext':
                    for e in o.log:
                        self._subentry(e, sub)
                    o.base = subst(o.base, sub)
        for o, ents, n in objs:
            rel = self.relpc(o)
            for e in ents:
                if binder or sub:
                    e.val = self.tv(e.val)
                if sub:
                    self._subentry(e, sub)
                if run is not None:
                    e.guard = mul(run, e.guard)
                if binder:
                    e.binders.insert(0, binder)
                e.guard = mul(rel, e.guard)
                self._tidy(e)

    def _tidy(self, e):
        doms = dict(self.facts)
        doms.update({v: d for v, d in e.binders})
        e.guard = simp_facts(e.guard, doms)
        if isinstance(e.val, Term):
            e.val = simp_facts(e.val, doms)

    def _subentry(self, e, sub):
        e.guard = subst(e.guard, sub)
        e.idx = tuple(subst(x, sub) for x in e.idx)
        if isinstance(e.val, Term):
            e.val = subst(e.val, sub)
        else:
            e.val = self.subval(e.val, sub)
        e.binders = [(v, tuple(subst(x, sub) for x in d)) for v, d in e.binders]

    def subval(self, v, sub):
        if isinstance(v, Term):
            return subst(v, sub)
        if isinstance(v, Tup):
            return Tup([self.subval(x, sub) for x in v.items], v.rec)
        if isinstance(v, Sub):
            return Sub(subst(v.term, sub), v.base, tuple(subst(x, sub) for x in v.idx))
        if isinstance(v, Choice):
            return Choice([(subst(g, sub), self.subval(x, sub)) for g, x in v.alts])
        return v

    # ------------------------------------------------------------ terms of values
    def tv(self, v):
        return self.termof(v)

    def termof(self, v):
        if isinstance(v, Term):
            return self.cur(v)
        if isinstance(v, Tup):
            if v.rec is not None:
                return mk('nt', v.rec.name, *[self.termof(x) for x in v.items])
            return mk('tup', *[self.termof(x) for x in v.items])
        if isinstance(v, Ref):
            return self.snapshot(v)
        if isinstance(v, Sub):
            if v.base is not None:
                o = self.heap.get(v.base.id) if isinstance(v.base, Ref) else None
                if o is not None and o.kind != 'inst' and any(len(e.idx) > len(v.idx) and e.idx[:len(v.idx)] == v.idx or
                                         (e.op != '=' and e.idx == v.idx and e.op in ('app', 'ext', 'call'))
                                         for e in o.log):
                    return self.read(v.base, v.idx)
            return self.cur(v.term)
        if isinstance(v, Choice):
            r = ZERO
            for g, x in v.alts:
                r = add(r, mul(g, self.termof(x)))
            return r
        if isinstance(v, Fn):
            return self.lam(v)
        if isinstance(v, Cls):
            return mk('ref', self.opaque.get(v.cls.qual, v.cls.qual))
        if isinstance(v, Rec):
            return mk('ref', v.rec.name)
        if isinstance(v, Mod):
            return mk('ref', v.name)
        if isinstance(v, Ext):
            return mk('ref', extern.canon(v.name))
        if isinstance(v, Bound):
            return mk('attr', self.termof(v.recv), v.name)
        if isinstance(v, Rng):
            t = fresh('r')
            return mk('list', bind('stream', [t], (((ZERO, v.n),), ONE, add(v.lo, mul(v.step, t))), 'app'))
        if isinstance(v, Iter):
            r = self.materialise(v)
            return self.termof(r)
        if v is None:
            return mk('undefined')
        raise Unsupported(f'value {v!r}')

    def cur(self, t):
        r = self.extmap.get(t)
        if r is not None and self.heap[r.id].log:
            self.reads.add(r.id)
            return self._ver(t, self.snapshot(r))
        return self._ver(t, t)

    def _ver(self, t, x, keep=None):
        v = self.attrs.get((t, '$ver'))
        if v is not None and keep is not None:
            v = frontier(relevant(events(v), keep))
        if v is not None:
            x = mk('st', x, v)
        if t.op in ('sym', 'attr', 'index', 'var'):
            pend = [(k[1], w) for k, w in self.attrs.items() if k[0] is t and k[1] != '$ver']
            if pend:
                pend.sort(key=lambda p: p[0])
                x = mk('with', x, *[y for n, w in pend for y in (mk('str', n), self.termof(w))])
        return x

    def excluded(self, g, pcs):
        for c in pcs:
            k = (g, c)
            r = self.exclcache.get(k)
            if r is None:
                r = False
                if len(pitems(g)) * len(pitems(c)) <= 12:
                    r = mul(g, c) is ZERO
                self.exclcache[k] = r
            if r:
                return True
        return False

    def snapshot(self, ref):
        o = self.heap[ref.id]
        self.reads.add(ref.id)
        if o.kind == 'inst':
            ats = sorted(((k[1], w) for k, w in self.attrs.items() if k[0] == ref), key=lambda p: p[0])
            if ref in getattr(self, '_snapping', ()):
                return mk('inst', o.cls.name)
            self._snapping = getattr(self, '_snapping', ()) + (ref,)
            try:
                return mk('inst', o.cls.name, *[y for n, w in ats for y in (mk('str', n), self.termof(w))])
            finally:
                self._snapping = self._snapping[:-1]
        log = o.log
        if any(e.guard is not ONE for e in log):
            # what happened on a path that excludes this one is not visible here
            pcs = [c for s in self.scopes for c in s.pc]
            if pcs and not self.merging:
                log = [e for e in log if e.guard is ONE or e.op == 'phi' or not self.excluded(e.guard, pcs)]
        key = tuple((id(e), e.guard, e.val if isinstance(e.val, Term) else None) for e in log)
        c = self.snapcache.get(ref.id)
        if c and c[0] == key and c[1] is o.base:
            return c[2]
        active = getattr(self, '_active', ())
        if ref.id in active:
            # the object is stored inside itself (aliases of one buffer)
            return o.base
        self._active = active + (ref.id,)
        ents = []
        try:
            for e in log:
                e = e.copy()
                if not isinstance(e.val, Term):
                    e.val = self.termof(e.val)
                elif e.op not in ('phi', 'call'):
                    e.val = self.cur(e.val)
                ents.append(e)
        finally:
            self._active = active
        r = canon_log(o.base, ents)
        if active:
            return r          # may contain a cut: not cached
        if all(isinstance(e.val, Term) for e in log):
            self.snapcache[ref.id] = (key, o.base, r)
        return r

    def lam(self, fn):
        """closed form of a function value"""
        f = fn.func
        q = self.qual(f)
        if q in self.opaque and fn.selfv is None:
            return mk('ref', self.opaque[q])
        if fn.selfv is not None and f.cls is not None:
            return mk('attr', self.termof(fn.selfv), f.name)
        if f in self.stack or self.lamdepth > 2:
            return mk('ref', q)
        args = f.node.args
        ps = [a.arg for a in args.args]
        nd = len(args.defaults)
        vs = [fresh('p', False) for _ in ps]
        mark, attrs = self.mark(), dict(self.attrs)
        self.push_scope()
        self.lamdepth += 1
        try:
            try:
                dflt = [self.termof(self.default(f, fn, d)) for d in args.defaults]
                val = self.inline(fn, list(vs), {}, raw=True)
                t = self.termof(val)
                eff = []
                for o in [self.calls] + [o for o in self.heap.values() if o.kind == 'ext']:
                    n = mark.get(o.id, 0)
                    if len(o.log) > n and o.id != 1:
                        ents = []
                        for e in o.log[n:]:
                            e = e.copy()
                            e.val = self.termof(e.val)
                            ents.append(e)
                        eff.append(canon_log(o.base, ents))
                byexc = {}
                for e in self.raises.log[mark.get(self.raises.id, 0):]:
                    g = e.guard
                    if e.binders:
                        g = exists_over(e.binders, simp_facts(g, dict(e.binders)))
                    byexc[e.val] = lor(byexc.get(e.val, ZERO), g)
                eff += [mk('exc', k, g) for k, g in byexc.items() if g is not ZERO]
            finally:
                self.lamdepth -= 1
                self.scopes.pop()
                self.rollback(mark, attrs)
        except Unsupported as ex:
            self.notes.add(f'closure {q}: {ex}')
            return mk('ref', 'closure:' + q)
        eff.sort(key=lambda x: x.dig)
        return bind('lam', vs, (t, tuple(dflt), tuple(eff)), str(len(dflt)))

    def qual(self, f):
        return f.qual if isinstance(f, Func) else '<lambda>'

    # ------------------------------------------------------------ state
    def save(self):
        fr = self.frames[-1]
        return State(dict(fr.env), dict(self.attrs))

    def restore(self, s):
        fr = self.frames[-1]
        fr.env.clear()
        fr.env.update(s.env)
        self.attrs = dict(s.attrs)

    @merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Ref) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.rec is b.rec:
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.rec)
        sa = a.term if isinstance(a, Sub) else a
        sb = b.term if isinstance(b, Sub) else b
        if isinstance(sa, Term) and isinstance(sb, Term):
            if sa is sb:
                return a
            if not any(isinstance(v, Sub) and has_slice(v.idx) for v in (a, b)):
                return ite(c, self.termof(sa), self.termof(sb))
        alts = []
        for g, v in ((c, a), (sub(ONE, c), b)):
            if isinstance(v, Choice):
                alts += [(mul(g, h), w) for h, w in v.alts]
            else:
                alts.append((g, v))
        out = []
        for g, v in alts:
            if g is ZERO:
                continue
            for k, (h, w) in enumerate(out):
                if same_value(v, w):
                    out[k] = (add(h, g), w)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        if all(isinstance(v, (Ref, Term, Sub, Tup)) for g, v in out) and not all(
                isinstance(v, Ref) and self.heap[v.id].kind == 'inst' for g, v in out):
            refs = [v for g, v in out if isinstance(v, Ref)]
            if len(refs) < len(out) or any(self.heap[v.id].kind != 'inst' for v in refs):
                return Choice(out)
        return Choice(out)

    def live_after(self, st):
        f = self.frames[-1].func
        if st is None or f is None or not isinstance(f.node, ast.FunctionDef):
            return None
        return liveness(f.node).after.get(id(st))

    def live_head(self, st):
        f = self.frames[-1].func
        if st is None or f is None or not isinstance(f.node, ast.FunctionDef):
            return None
        return liveness(f.node).head.get(id(st))

    @merging
    def merge_state(self, c, s1, s2, keep=None):
        env = {}
        for k in set(s1.env) | set(s2.env):
            if keep is not None and k not in keep and s1.env.get(k) is not s2.env.get(k):
                continue
            env[k] = self.merge_val(c, s1.env.get(k), s2.env.get(k))
        at = {}
        for k in set(s1.attrs) | set(s2.attrs):
            a, b = s1.attrs.get(k), s2.attrs.get(k)
            if a is b:
                at[k] = a
                continue
            if k[1] == '$ver':
                a = a if a is not None else mk('v0')
                b = b if b is not None else mk('v0')
            elif isinstance(k[0], Term):
                base = mk('attr', k[0], k[1]) if k[1][0] != '$' else NONE
                a = a if a is not None else base
                b = b if b is not None else base
            at[k] = self.merge_val(c, a, b)
        return State(env, at)

    # ------------------------------------------------------------ entry
    def summarize(self, func, names=None, cls=None):
        """names: canonical parameter names by position"""
        self.reset()
        node = func.node
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        env_params = []
        for k, p in enumerate(ps):
            nm = names[k] if names and k < len(names) else p
            env[p] = sym(nm)
            env_params.append(nm)
        for x in a.kwonlyargs:
            env[x.arg] = sym(x.arg)
        if a.vararg:
            env[a.vararg.arg] = sym('*' + (names[len(ps)] if names and len(names) > len(ps) else 'args'))
        if a.kwarg:
            env[a.kwarg.arg] = sym('**kwargs')
        if func.cls is not None and ps:
            self.selfcls[env[ps[0]]] = cls or func.cls
        fr = Frame(func.module, func, env)
        self.frames.append(fr)
        self.stack.append(func)
        comp = {}
        # defaults are part of the interface
        dfl = []
        for d in a.defaults:
            dfl.append(self.termof(self.eval(d)))
        for k, d in enumerate(reversed(dfl)):
            comp[f'default {env_params[len(env_params) - 1 - k]}'] = d
        val = self.run_body(fr, node)
        # calls hidden in a lazy return value happen while the frame is alive
        self.scopes[-1].dead = None
        self.scopes[-1].pc = ()
        val = self.force(val)
        self.frames.pop()
        # ---- components
        R = ZERO
        byexc = {}
        for e in self.raises.log:
            g = e.guard
            if e.binders:
                g = exists_over(e.binders, simp_facts(g, dict(e.binders)))
            byexc[e.val] = lor(byexc.get(e.val, ZERO), g)
        Rs = ONE
        for e, g in byexc.items():
            if len(pitems(g)) <= 4 and all(not a.op == 'exists' for m, c in pitems(g) for a, k in m):
                Rs = mul(Rs, sub(ONE, g))
        if len(pitems(Rs)) > 12:
            Rs = ONE

        def norm(t):
            if Rs is ONE or t is NONE:
                return t
            try:
                if t.op in ('tup',):
                    return mk('tup', *[norm(x) for x in t.args])
                return mul(Rs, t)
            except TooBig:
                return t
        self.val = val
        comp['return'] = norm(self.termof(val))
        for e, g in byexc.items():
            if g is not ZERO:
                comp[f'raises {e.args[0] if e.op == "str" else show(e)}'] = g
        if self.calls.log:
            for e in self.calls.log:
                e.val = self.termof(e.val)
                e.guard = norm(e.guard)
            comp['calls'] = canon_log(self.calls.base, self.calls.log)
        for root, r in self.extmap.items():
            o = self.heap[r.id]
            if o.log and o.kind == 'ext' and root.op != 'poly' and not new_result(root):
                comp[f'write {show(root)}'] = self.snapshot(r)
        for (root, name), v in self.attrs.items():
            if isinstance(root, Term) and name != '$ver' and not root.fv:
                comp[f'set {show(root)}.{name}'] = norm(self.termof(v))
        sh = self.storage()
        if sh is not None:
            comp['shares'] = sh
        left = sorted({w for t in comp.values() for w in t.fv}, key=lambda w: w.args[0])
        if left:
            # contents of an object inside a loop that has no closed form
            mp = {w: mk('loopview', const(k)) for k, w in enumerate(left)}
            comp = {k: subst(t, mp) for k, t in comp.items()}
        return comp

    def storage(self):
        """which attributes of the objects this call leaves behind hold the same array or list,
        or a view of one: (pairs of access paths, access paths whose storage is known)"""
        if not any(isinstance(v, (Ref, Sub)) for v in self.attrs.values()):
            return None
        held, todo, seen = {}, [], set()
        attrs = {}
        for (root, name), v in self.attrs.items():
            if name == '$ver':
                continue
            if isinstance(root, Term):
                if not root.fv:
                    todo.append((f'{show(root)}.{name}', v))
            elif isinstance(root, Ref):
                attrs.setdefault(root.id, []).append((name, v))
        todo.append(('return', self.val))
        todo.sort(key=lambda x: x[0])
        while todo:
            path, v = todo.pop(0)
            if isinstance(v, Tup):
                todo += [(f'{path}[{k}]', x) for k, x in enumerate(v.items)]
                continue
            if isinstance(v, Sub):
                b = v.base
                o = self.heap.get(b.id) if isinstance(b, Ref) else None
                rank = len(o.base.args[0].args) if o is not None and o.kind == 'arr' and o.base is not None and o.base.op == 'full' \
                    and isinstance(o.base.args[0], Term) and o.base.args[0].op == 'tup' else None
                if rank is not None and sum(1 for i in v.idx if i.op not in ('sub', 'slice', 'newaxis')) < rank \
                        and not any(i.fv for i in v.idx):
                    held[path] = (b.id, ', '.join(show(i) for i in v.idx))
                continue
            if not isinstance(v, Ref) or v.id not in self.heap:
                continue
            o = self.heap[v.id]
            if o.kind in ('arr', 'list', 'dict'):
                held[path] = (v.id, '')
            if o.kind == 'ext' or v.id in seen or len(seen) > 60:
                continue
            seen.add(v.id)
            todo += [(f'{path}.{n}', x) for n, x in attrs.get(v.id, ())]
            if o.kind == 'list' and o.base is not None and all(e.guard is ONE and not e.binders and e.op in ('app', '=') for e in o.log):
                k = len(o.base.args)
                slots = {}
                for e in o.log:
                    if e.op == 'app':
                        slots[k] = e.val
                        k += 1
                    elif len(e.idx) == 1 and const_value(e.idx[0]) is not None:
                        slots[int(const_value(e.idx[0]))] = e.val
                    else:
                        slots = {}
                        break
                todo += [(f'{path}[{k}]', x) for k, x in sorted(slots.items())]
        pairs = set()
        ps = sorted(held)
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                (a, x), (b, y) = held[p], held[q]
                if a == b and (not x or not y):
                    pairs.add((p, x, q, y))
        if not held:
            return None
        return mk('shares', mk('str', repr(sorted(pairs))), mk('str', repr(ps)))

    def locs(self):
        out = {}
        for root, r in self.extmap.items():
            o = self.heap[r.id]
            if o.log:
                out[f'write {show(root)}'] = sorted({e.loc for e in o.log if e.loc})
        out['calls'] = sorted({e.loc for e in self.calls.log if e.loc})
        for e in self.raises.log:
            nm = f'raises {e.val.args[0] if e.val.op == "str" else show(e.val)}'
            out.setdefault(nm, []).append(e.loc)
        return out

    def force(self, v):
        if isinstance(v, Iter):
            return self.materialise(v)
        if isinstance(v, Choice):
            return Choice([(g, self.force(x)) for g, x in v.alts])
        if isinstance(v, Tup) and any(isinstance(x, (Iter, Choice, Tup)) for x in v.items):
            return Tup([self.force(x) for x in v.items], v.rec)
        return v

    def run_body(self, fr, node):
        if isinstance(node, ast.Lambda):
            return self.eval(node.body)
        if is_generator(node):
            fr.yields = self.new('list', mk('list'))
        self.block(node.body)
        if fr.yields is not None:
            return fr.yields
        if not self.dead:
            fr.rets.append((self.pcterm(), NONE))
        val = None
        # guards are disjoint
        if not fr.rets:
            return mk('noreturn')
        rets = [(g, v) for g, v in fr.rets if g is not ZERO]
        if len(rets) > 1 and rets[-1][1] is NONE and all(v is NONE for g, v in rets):
            return NONE
        if len(rets) == 1:
            return rets[0][1]
        if not rets:
            return NONE
        val = rets[-1][1]
        for g, v in reversed(rets[:-1]):
            val = self.merge_val(g, v, val)
        return val

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.dead:
                return
            self.stmt(st)

    def stmt(self, st):
        self.line = getattr(st, 'lineno', 0)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__} at {self.loc()}')
        m(st)

    def s_Pass(self, st):
        pass

    def s_Global(self, st):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, st):
        for a in st.names:
            if a.asname:
                self.bind(a.asname, Mod(a.name))
            else:
                self.bind(a.name.split('.')[0], Mod(a.name.split('.')[0]))

    def s_ImportFrom(self, st):
        mod = st.module or ''
        if st.level:
            parts = self.frames[-1].module.name.split('.')[:-st.level]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in st.names:
            self.bind(a.asname or a.name, self.resolved(self.prog.resolve(mod, a.name), mod, a.name))

    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        self.bind(st.name, Fn(Func(fr.module, st), [fr.env] + (fr.parent or [])))

    def s_ClassDef(self, st):
        fr = self.frames[-1]
        self.bind(st.name, Cls(Class(fr.module, st)))

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            fr = self.frames[-1]
            v = self.eval(st.value.value) if st.value.value is not None else NONE
            o = self.heap[fr.yields.id]
            if isinstance(st.value, ast.Yield):
                self.log(o, 'app', (), v)
            else:
                self.for_each(v, lambda e, i: self.log(o, 'app', (), e), set())
            return
        self.recorded = None
        v = self.eval(st.value)
        if isinstance(st.value, ast.Call) and isinstance(v, Term) and v is not self.recorded and not (
                isinstance(st.value.func, ast.Attribute) and st.value.func.attr in extern.MUTATORS) and self.for_effect(v):
            # called for what it does, not for its value
            self.log(self.calls, 'call', (), v)

    recorded = None

    def for_effect(self, v):
        """a statement that calls something outside the package, not recorded so far"""
        if v.op not in ('app', 'call'):
            return False
        if any(e.val is v for e in self.calls.log):
            return False
        f = v.args[0]
        if v.op == 'call':
            return True
        return not (isinstance(f, str) and (f in self.opaque.values() or f.startswith(('edpyt.', 'c:', 'edpyt_backend.'))))

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def s_NamedExpr(self, st):
        pass

    def bind(self, name, v):
        self.frames[-1].env[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.index_of(t.slice)
            self.write(base, idx, '=', v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, stars=()):
        if isinstance(v, Sub):
            v = self.termof(v)
        if isinstance(v, Ref) and self.heap[v.id].kind == 'list':
            its = self.const_items(v)
            if its is not None:
                v = Tup(its)
        if isinstance(v, Iter):
            v = self.materialise(v)
            its = self.const_items(v)
            if its is not None:
                v = Tup(its)
        if isinstance(v, Tup):
            its = list(v.items)
            if any(stars):
                k = list(stars).index(True)
                after = n - k - 1
                mid = its[k:len(its) - after]
                return its[:k] + [self.list_of(mid)] + its[len(its) - after:]
            if len(its) == n:
                return its
            raise Unsupported('unpack arity')
        if isinstance(v, Choice):
            parts = [(g, self.unpack(x, n, stars)) for g, x in v.alts]
            out = []
            for k in range(n):
                r = parts[-1][1][k]
                for g, p in reversed(parts[:-1]):
                    r = self.merge_val(g, p[k], r)
                out.append(r)
            return out
        t = self.termof(v)
        if t.op in ('tup', 'nt') :
            xs = t.args if t.op == 'tup' else t.args[1:]
            if len(xs) == n:
                return list(xs)
        if any(stars):
            k = list(stars).index(True)
            return [index(t, (const(j),)) for j in range(k)] + \
                [mk('rest', t, const(k), const(n - k - 1))] + [index(t, (const(j - n),)) for j in range(k + 1, n)]
        return [index(t, (const(k),)) for k in range(n)]

    def s_AugAssign(self, st):
        opn = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            old = self.load(t.id)
            v = self.eval(st.value)
            if isinstance(old, Ref) and self.heap[old.id].kind in ('arr', 'list') or self.inplace_term(old):
                if isinstance(old, Ref) and self.heap[old.id].kind == 'list' and opn == 'Add':
                    self.extend(old, v)
                    return
                base, idx = (old.base, old.idx) if isinstance(old, Sub) else (old, ())
                self.aug(base, idx, opn, v)
                if isinstance(old, Sub):
                    self.bind(t.id, Sub(self.read(self.ref_of(base), idx), base, idx))
                return
            self.bind(t.id, self.binop(opn, old, v))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.index_of(t.slice)
            v = self.eval(st.value)
            self.aug(base, idx, opn, v)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.getattr(base, t.attr)
            v = self.eval(st.value)
            if isinstance(old, Ref) and self.heap[old.id].kind in ('arr', 'list'):
                self.aug(old, (), opn, v)
            elif t.attr in ('real', 'imag', 'T', 'flat'):
                self.write(base, (mk('slice', NONE, NONE, NONE), mk('str', t.attr)), '=', self.binop(opn, old, v))
            else:
                self.setattr(base, t.attr, self.binop(opn, old, v))
        else:
            raise Unsupported('augmented target')

    def inplace_term(self, v):
        if isinstance(v, Sub):
            if any(x.op == 'slice' for x in v.idx):
                return True
            return False
        if not isinstance(v, Term):
            return False
        if is_int(v):
            return False
        x = v
        if x in self.extmap:
            return True
        while x.op in ('attr', 'index'):
            if x.op == 'attr' and x.args[1] in ('size', 'ndim', 'beta', 'mu', 'it', 'egs'):
                return False
            if x.op == 'index' and not any(y.op == 'slice' for y in x.args[1]):
                return False
            x = x.args[0]
        return x.op == 'sym' and x.args[0] not in self.scalars and not x.args[0].startswith('*')

    def aug(self, base, idx, opn, v):
        v = self.termof(v)
        if opn == 'Add':
            self.write(base, idx, '+=', v)
        elif opn == 'Sub':
            self.write(base, idx, '+=', neg(v))
        elif opn == 'Mult':
            self.write(base, idx, '*=', v)
        elif opn == 'Div':
            self.write(base, idx, '*=', recip(v) if const_value(v) is None else const(1 / const_value(v)))
        else:
            ref = self.ref_of(base)
            old = self.read(ref, idx) if idx else self.termof(base)
            self.write(base, idx, '=', self.binop(opn, old, v))

    def s_Return(self, st):
        v = self.eval(st.value) if st.value is not None else NONE
        fr = self.frames[-1]
        if fr.loops:
            # inside a loop: resolved when the loop closes
            fr.loops[-1]['ret'].append((self.pcterm(), v))
        else:
            fr.rets.append((self.pcterm(), v))
        self.scopes[-1].dead = 'return'

    def s_Break(self, st):
        fr = self.frames[-1]
        fr.loops[-1]['brk'].append((self.pcterm(), self.save()))
        self.scopes[-1].dead = 'break'

    def s_Continue(self, st):
        fr = self.frames[-1]
        fr.loops[-1]['cont'].append((self.pcterm(), self.save()))
        self.scopes[-1].dead = 'continue'

    def s_Raise(self, st):
        exc = 'reraise'
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            try:
                v = self.eval(e)
            except Unsupported:
                v = None
            exc = self.excname(v, e)
        self.log(self.raises, 'raise', (), mk('str', exc))
        self.scopes[-1].dead = 'raise'

    def excname(self, v, node):
        if isinstance(v, Cls):
            return v.cls.name
        if isinstance(v, Ext):
            return v.name.split('.')[-1]
        if isinstance(v, Term) and v.op == 'ref':
            return v.args[0].split('.')[-1]
        return ast.unparse(node)

    def s_Assert(self, st):
        c = self.cond(st.test)
        if c is ONE:
            return
        g = sub(ONE, c)
        pc = self.pc
        self.pc = pc + (g,)
        self.log(self.raises, 'raise', (), mk('str', 'AssertionError'))
        self.pc = pc
        if c is ZERO:
            self.scopes[-1].dead = 'raise'

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                idx = self.index_of(t.slice)
                self.log(self.heap[self.ref_of(b).id], 'call', idx, mk('str', 'del'))

    def s_With(self, st):
        for it in st.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(st.body)

    def s_If(self, st):
        c = self.cond(st.test)
        f1, f2 = (lambda: self.block(st.body)), (lambda: self.block(st.orelse))
        if st.orelse and isinstance(st.orelse[-1], ast.Raise):
            # the raising branch first: what follows it carries no guard
            c, f1, f2 = sub(ONE, c), f2, f1
        self.branch(c, f1, f2, self.live_after(st))

    def count_exits(self):
        fr = self.frames[-1]
        return (len(fr.rets), tuple((len(l['brk']), len(l['cont']), len(l['ret'])) for l in fr.loops))

    def keep_new(self, s, nid0):
        """attributes of instances made on a path that has already returned"""
        for k, v in s.attrs.items():
            if isinstance(k[0], Ref) and k[0].id > nid0 and k not in self.attrs:
                self.attrs[k] = v

    def branch(self, c, f1, f2, keep=None):
        sc = self.scopes[-1]
        if c is ONE:
            return f1()
        if c is ZERO:
            return f2()
        pc0 = sc.pc
        P = prod(*pc0) if len(pc0) <= 6 else None
        if P is not None:
            x = mul(P, c)
            if x is P:
                return f1()
            if x is ZERO:
                return f2()
        s0 = self.save()
        nid0 = self.nid
        e0 = self.count_exits()
        sc.pc = pc0 + (c,)
        f1()
        d1, pc1, s1 = sc.dead, sc.pc, self.save()
        r1 = d1 == 'raise' and self.count_exits() == e0
        sc.dead = None
        self.restore(s0)
        e1 = self.count_exits()
        nc = sub(ONE, c)
        sc.pc = pc0 if r1 else pc0 + (nc,)
        f2()
        d2, pc2, s2 = sc.dead, sc.pc, self.save()
        r2 = d2 == 'raise' and self.count_exits() == e1
        sc.dead = None
        if d1 and d2:
            self.keep_new(s1, nid0)
            sc.dead = 'raise' if d1 == d2 == 'raise' else 'return'
            if d1 == d2:
                sc.dead = d1
            sc.pc = pc0
            return
        if d1:
            self.restore(s2)
            self.keep_new(s1, nid0)
            sc.pc = pc2
            return
        if d2:
            self.restore(s1)
            self.keep_new(s2, nid0)
            if r2:
                sc.pc = tuple(x for x in pc1 if x is not c)
            else:
                sc.pc = pc1
            return
        self.restore(self.merge_state(c, s1, s2, keep))
        if pc1 == pc0 + (c,) and pc2 == pc0 + (nc,):
            sc.pc = pc0
        else:
            x1 = prod(*[x for x in pc1 if x not in pc0])
            x2 = prod(*[x for x in pc2 if x not in pc0])
            y = add(mul(c, x1), mul(nc, x2))
            sc.pc = pc0 if y is ONE else pc0 + (y,)

    def s_Try(self, st):
        fr = self.frames[-1]
        n0 = len(self.raises.log)
        s0 = self.save()
        pc0 = self.pc
        mark = self.mark()
        fr_try = getattr(fr, 'trynames', [])
        names = []
        for h in st.handlers:
            if h.type is None:
                names.append('*')
            elif isinstance(h.type, ast.Tuple):
                names += [ast.unparse(x).split('.')[-1] for x in h.type.elts]
            else:
                names.append(self.excname(self.try_eval(h.type), h.type))
        fr.trynames = fr_try + [names]
        self.trynames = getattr(self, 'trynames', [])
        self.trynames.append(names)
        try:
            self.block(st.body)
        finally:
            self.trynames.pop()
            fr.trynames = fr_try
        dead = self.dead
        if st.handlers:
            caught = self.raises.log[n0:]
            keep = []
            G = ZERO
            for e in caught:
                nm = e.val.args[0] if e.val.op == 'str' else ''
                if any(self.catches(x, nm) for x in names):
                    g = e.guard
                    if e.binders:
                        g = exists_over(e.binders, g)
                    G = lor(G, g)
                else:
                    keep.append(e)
            del self.raises.log[n0:]
            self.raises.log.extend(keep)
            # guard of raise is relative to this scope
            P0 = prod(*pc0)
            Grel = G
            for cj in pc0:
                Grel = strip_guard(Grel, cj)
            if G is ZERO and not dead:
                if st.orelse:
                    self.block(st.orelse)
            elif G is not ZERO or dead == 'raise':
                if dead == 'raise' and G is ZERO:
                    Grel = ONE
                s1, pc1 = self.save(), self.pc
                # effects of the body did not happen when it raised
                for o, ents in self.segment(mark):
                    if o.id == 1:
                        continue
                    for e in ents:
                        if e.op != 'call':
                            e.guard = mul(e.guard, sub(ONE, Grel)) if not e.binders else e.guard

                def handler():
                    self.restore(s0)
                    if len(st.handlers) == 1:
                        h = st.handlers[0]
                        if h.name:
                            self.bind(h.name, mk('exc'))
                        self.block(h.body)
                    else:
                        for h in st.handlers:
                            self.block(h.body)
                            break

                def normal():
                    self.restore(s1)
                    self.scopes[-1].dead = dead
                    if not dead:
                        self.block(st.orelse)
                self.scopes[-1].dead = None
                self.pc = pc0
                if Grel is ONE:
                    handler()
                else:
                    self.branch(Grel, handler, normal, self.live_after(st))
        elif not dead:
            self.block(st.orelse)
        if st.finalbody:
            d = self.dead
            self.scopes[-1].dead = None
            p = self.pc
            if d:
                self.pc = pc0
            self.block(st.finalbody)
            if not self.dead:
                self.scopes[-1].dead = d
                if d:
                    self.pc = p

    def try_eval(self, node):
        try:
            return self.eval(node)
        except Unsupported:
            return None

    ERRBASE = {'AssertionError': ['Exception'], 'KeyError': ['LookupError', 'Exception'],
               'IndexError': ['LookupError', 'Exception'], 'ValueError': ['Exception'],
               'OutOfHilbertError': ['Exception', 'ValueError'], 'StopIteration': ['Exception']}

    def catches(self, handler, exc):
        if handler == '*' or handler == exc or handler in ('Exception', 'BaseException'):
            return True
        return handler in self.ERRBASE.get(exc, ())

    # ------------------------------------------------------------ loops
    def s_For(self, st):
        it = self.eval(st.iter)
        names = assigned(st.body) | assigned([st.target])

        def body(e, i):
            self.assign(st.target, e)
            self.block(st.body)
        self.for_each(it, body, names, orelse=st.orelse, stmts=st.body, st=st)

    def s_While(self, st):
        names = assigned(st.body) | assigned_expr(st.test)
        self.sym_loop(None, names, lambda t: self.block(st.body), test=st.test, orelse=st.orelse, stmts=st.body, st=st)

    def for_each(self, it, body, names, orelse=(), stmts=None, st=None):
        segs = self.segments(it)
        if segs[0] == 'items':
            return self.unrolled(segs[1], body, orelse, st)
        segs = segs[1]
        has_brk = stmts is not None and has_break(stmts)
        if (len(segs) > 1 or any(len(s[0]) > 1 for s in segs)) and has_brk:
            raise Unsupported('break out of a multi-dimensional iteration')
        for binders, guard, elem, pos in segs:
            self.nest(list(binders), guard, elem, pos, body, names, orelse if len(segs) == 1 else (), st)
        if len(segs) > 1 and orelse:
            self.block(orelse)

    def nest(self, binders, guard, elem, pos, body, names, orelse, st=None):
        if not binders:
            def run():
                if guard is ONE:
                    body(elem, pos)
                else:
                    self.branch(guard, lambda: body(elem, pos), lambda: None, self.live_head(st))
            return run()
        (v, (lo, hi)) = binders[0]
        rest = binders[1:]
        if lo is not ZERO:
            raise Unsupported('iteration domain')

        def inner(t):
            sm = {v: t}
            rb = [(w, tuple(subst(x, sm) for x in d)) for w, d in rest]
            self.nest(rb, subst(guard, sm), self.subval(elem, sm), self.subval(pos, sm) if pos is not None else None,
                      body, names, (), st)
        self.sym_loop(hi, names, inner, orelse=orelse, st=st)

    def unrolled(self, items, body, orelse, st=None):
        fr = self.frames[-1]
        ctx = {'brk': [], 'cont': [], 'ret': []}
        outer = fr.loops
        sc = self.scopes[-1]
        brks = []
        for k, e in enumerate(items):
            if self.dead:
                break
            ctx = {'brk': [], 'cont': [], 'ret': [], 'unroll': True}
            fr.loops = outer + [ctx]
            body(e, const(k))
            fr.loops = outer
            for g, v in ctx['ret']:
                if outer:
                    outer[-1]['ret'].append((g, v))
                else:
                    fr.rets.append((g, v))
            brks += ctx['brk']
            dead = sc.dead
            sc.dead = None
            if ctx['cont']:
                if dead:
                    acc, rest = ctx['cont'][-1], ctx['cont'][:-1]
                else:
                    acc, rest = (self.pcterm(), self.save()), ctx['cont']
                for g, s in reversed(rest):
                    c = g
                    for cj in common(sc.pc):
                        c = strip_guard(c, cj)
                    acc = (add(g, acc[0]), self.merge_state(c, s, acc[1], self.live_head(st)))
                self.restore(acc[1])
                self.set_pc(acc[0])
            elif dead:
                sc.dead = dead
        dead = sc.dead
        if not dead and orelse:
            self.block(orelse)
            dead = sc.dead
        if brks:
            sc.dead = None
            if dead:
                acc, rest = brks[-1], brks[:-1]
            else:
                acc, rest = (self.pcterm(), self.save()), brks
            for g, s in reversed(rest):
                acc = (add(g, acc[0]), self.merge_state(g, s, acc[1], self.live_after(st)))
            self.restore(acc[1])
            self.set_pc(acc[0])

    def set_pc(self, g):
        self.pc = () if g is ONE else (g,)

    def sym_loop(self, N, names, body, test=None, orelse=(), stmts=None, st=None, pre=None):
        fr = self.frames[-1]
        lh, la = self.live_head(st), self.live_after(st)
        if lh is not None:
            for n in names:
                if n not in lh and n in fr.env:
                    del fr.env[n]
        pre = pre or {}
        env_names = [n for n in sorted(names) if n in fr.env and n not in pre]
        force_real = set()
        force_term = set()
        attr_keys = []
        marks = []
        for attempt in range(8):
            mark = self.mark()
            attrs0 = dict(self.attrs)
            s0 = self.save()
            sid0, nid0 = self.sid, self.nid
            outer_loops = fr.loops
            outer_facts = self.facts
            reads0 = self.reads
            self.reads = set()
            nfr = len(fr.rets)
            t = fresh('t')
            phis = {}
            for n in env_names:
                phis[('env', n)] = self.mkphi(fr.env[n], n, force_real, force_term=n in force_term)
            for k in attr_keys:
                init = self.attrs.get(k)
                if init is None:
                    init = mk('attr', k[0], k[1]) if isinstance(k[0], Term) and k[1] != '$ver' else mk('v0')
                phis[('attr', k)] = self.mkphi(init, k, force_real, init=init, force_term=k in force_term)
            self.push_scope()
            if N is not None:
                self.facts = dict(outer_facts)
                self.facts[t] = (ZERO, N)
            for o in marks:
                if o in self.heap:
                    ob = self.heap[o]
                    ph = fresh('phi', False)
                    ob.log.append(Entry([], ONE, 'phi', (), ph, ''))
            markphi = {o: self.heap[o].log[-1] for o in marks if o in self.heap}
            for (kind, k), (ph, init) in phis.items():
                if kind == 'env':
                    fr.env[k] = ph
                else:
                    self.attrs[k] = ph
            ctx = self._ctx = {'brk': [], 'cont': [], 'ret': []}
            fr.loops = outer_loops + [ctx]
            ctest = None
            if test is not None:
                ctest = self.cond(test)
            for n, (at_t, last_) in pre.items():
                fr.env[n] = at_t(t)
            body(t)
            fr.loops = outer_loops
            sc = self.scopes[-1]
            ends = list(ctx['cont'])
            if not sc.dead:
                ends.append((self.pcterm(), self.save()))
            sc.dead = None
            if ends:
                g, s = ends[-1]
                for g2, s2 in reversed(ends[:-1]):
                    s = self.merge_state(g2, s2, s, lh)
                self.restore(s)
            # --- what changed
            changed_attrs = [k for k in set(self.attrs) | set(attrs0)
                             if self.attrs.get(k) is not attrs0.get(k) and (k[0] not in self.newrefs(mark))]
            new_attr = [k for k in changed_attrs if ('attr', k) not in phis]
            modified = {o.id for o, ents in self.segment(mark) if o.id > 1 and any(e.op != 'phi' for e in ents)}
            modified |= {o.id for o in self.ext_objects_new(mark) if o.log}
            need = {o for o in modified & self.reads if o not in marks}
            # ext objects created in this pass do not survive the rollback: create them before
            newext = [o.root for o in self.ext_objects_new(mark) if o.log and o.id in self.reads and not (o.root.fv)]
            bad_int = {k for (kind, k), (ph, init) in phis.items()
                       if isinstance(ph, Term) and ph.op == 'var' and ph.args[2] and not self.int_next(
                           fr.env.get(k) if kind == 'env' else self.attrs.get(k))}
            rebound = set()
            if ends:
                for (kind, k), (ph, init) in phis.items():
                    nx = fr.env.get(k) if kind == 'env' else self.attrs.get(k)
                    if nx is not None and ph is not None and self.is_rebound(ph, nx):
                        rebound.add(k)
            if ends and (new_attr or need or bad_int or newext or rebound) and attempt < 7:
                self.scopes.pop()
                self.rollback(mark, attrs0)
                self.restore(s0)
                del fr.rets[nfr:]
                self.facts = outer_facts
                self.reads = reads0 | self.reads
                attr_keys = sorted(set(attr_keys) | set(new_attr), key=lambda k: (k[1], k[0].dig if isinstance(k[0], Term) else k[0].id))
                force_real |= bad_int
                force_term |= rebound
                for r in newext:
                    marks.append(self.ext(r).id)
                marks += sorted(need - {0})
                marks = [m for m in dict.fromkeys(marks) if m in self.heap]
                continue
            break
        self.facts = outer_facts
        self.reads = reads0 | self.reads
        # ---- solve the loop-carried variables
        system = {}
        for key, (ph, init) in phis.items():
            kind, k = key
            nx = (fr.env.get(k) if kind == 'env' else self.attrs.get(k)) if ends else ph
            self.flatten_phi(system, key, ph, init, nx)
        for o, ent in markphi.items():
            ob = self.heap.get(o)
            if ob is not None:
                self.array_system(system, ob, mark.get(o, 0), ent, ctx)
        stop = total(*[g for g, _ in ctx['brk']], *[g for g, _ in ctx['ret']])
        views = {}
        for key in [k for k, x in system.items() if x[2] is None]:
            views[system.pop(key)[0]] = mk('loopview', self.base_name(self.heap[key[1]]))
        sol, sysfin = solve(system, t, {**outer_facts, **({t: (ZERO, N)} if N is not None else {})})
        sol.update(views)
        # ---- trip count
        if test is not None:
            c = simp_deep(subst(ctest, sol), {})
            N = trip_count(c, t)
            known = self.counters(test, phis, sol, sysfin, N, t)
            if known:
                # a counted loop: run it again as one
                self.scopes.pop()
                self.rollback(mark, attrs0)
                self.restore(s0)
                del fr.rets[nfr:]
                v = const_value(N)
                if v is not None and v <= 4:
                    return self.unrolled([const(k) for k in range(max(0, int(v)))], lambda e, k: body(k), orelse, st)
                return self.sym_loop(N, names, body, orelse=orelse, stmts=stmts, st=st, pre=known)
        nfacts = dict(outer_facts)
        nfacts[t] = (ZERO, N)
        fin = {k: f(N) for k, f in sysfin.items()}
        for o, ent in markphi.items():
            if o in self.heap and ent in self.heap[o].log:
                self.heap[o].log.remove(ent)
        stop_s = simp_facts(subst(stop, sol), nfacts)
        run = None
        E = T = None
        if stop_s is not ZERO:
            u = fresh('u')
            run = sub(ONE, exists_over([(u, (ZERO, t))], subst(stop_s, {t: u})))
            u2 = fresh('u')
            E = exists_over([(u2, (ZERO, N))], subst(stop_s, {t: u2}))
            u3 = fresh('u')
            T = bind('first', [u3], (subst(stop_s, {t: u3}), N))
        end_env = dict(fr.env)
        end_attrs = dict(self.attrs)
        self.facts = nfacts
        self.close_scope(mark, binder=(t, (ZERO, N)), run=run, sub=sol)
        self.facts = outer_facts
        # ---- values after the loop
        self.restore(s0)
        for key, (ph, init) in phis.items():
            kind, k = key
            v = self.refin(system, key, ph, fin)
            if kind == 'env':
                fr.env[k] = v
            else:
                self.attrs[k] = v
        for n, (at_t, last_) in pre.items():
            fr.env[n] = last_
        for n in names:
            if n not in s0.env and n in end_env and end_env[n] is not None and (la is None or n in la):
                last = {t: sub(N, ONE)}
                try:
                    fr.env[n] = self.subval(self.subval(self.plain(end_env[n]), sol), last)
                except Unsupported:
                    pass
        if E is not None:
            at_ = {t: T}
            # returns
            gb = total(*[g for g, _ in ctx['brk']])
            for g, v in ctx['ret']:
                gg = subst(subst(g, sol), at_) if (gb is not ZERO or len(ctx['ret']) > 1) else ONE
                vv = self.subval(self.subval(self.plain(v), sol), at_)
                tgt = fr.loops[-1]['ret'] if fr.loops else fr.rets
                tgt.append((prod(self.pcterm(), E, gg), vv))
            if ctx['brk']:
                acc = None
                for g, s in ctx['brk']:
                    env = {}
                    for n in s.env:
                        env[n] = s.env[n] if s.env[n] is s0.env.get(n) else self.subval(self.subval(self.plain(s.env[n]), sol), at_)
                    ats = {}
                    for k in s.attrs:
                        ats[k] = s.attrs[k] if s.attrs[k] is s0.attrs.get(k) else self.subval(self.subval(self.plain(s.attrs[k]), sol), at_)
                    st_ = State(env, ats)
                    gg = subst(subst(g, sol), at_)
                    acc = st_ if acc is None else self.merge_state(gg, st_, acc, la)
                Eb = E if not ctx['ret'] else mul(E, subst(subst(gb, sol), at_))
                if orelse:
                    self.branch(Eb, lambda: self.restore(acc), lambda: self.block(orelse))
                else:
                    self.restore(self.merge_state(Eb, acc, self.save(), la))
                if ctx['ret']:
                    self.pc = self.pc + (sub(ONE, mul(E, sub(ONE, subst(subst(gb, sol), at_)))),)
                return
            if ctx['ret']:
                self.pc = self.pc + (sub(ONE, E),)
        if orelse:
            self.block(orelse)

    def counters(self, test, phis, sol, sysfin, N, t):
        """variables of a loop test that are known in terms of the iteration number"""
        if any(w.op in ('tripcount', 'rec', 'recval', 'loopview', 'unsolved') for w in walk(N)):
            return None
        used = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
        known = {}
        bound = {ph for ph, init in phis.values() if isinstance(ph, Term)}
        if N.fv & (bound | {t}):
            return None
        for (kind, k), (ph, init) in phis.items():
            if kind != 'env' or k not in used:
                continue
            x = sol.get(ph) if isinstance(ph, Term) else None
            if x is None or (x.fv & bound) or any(w.op in ('rec', 'recval', 'loopview', 'unsolved') for w in walk(x)):
                return None
            f = sysfin.get(('env', k))
            if f is None:
                return None
            known[k] = ((lambda tt, x=x: subst(x, {t: tt})), f(N))
        return known or None

    def newrefs(self, mark):
        return {Ref(i) for i in self.heap if i not in mark and self.heap[i].kind != 'ext'}

    def plain(self, v):
        """value that survives substitution"""
        if isinstance(v, (Ref, Iter, Rng)):
            if isinstance(v, Ref) and self.heap[v.id].kind == 'inst':
                return v
            return self.termof(v)
        if isinstance(v, Tup):
            return Tup([self.plain(x) for x in v.items], v.rec)
        return v

    def mkphi(self, val, name, force_real, init=None, force_term=False):
        v = val
        if force_term and v is not None:
            t = self.termof(v)
            return fresh('phi', is_int(t) and name not in force_real), t
        if isinstance(v, Tup):
            phs = [self.mkphi(x, (name, k), force_real) for k, x in enumerate(v.items)]
            return Tup([p for p, _ in phs], v.rec), Tup([i for _, i in phs], v.rec)
        if isinstance(v, (Fn, Cls, Rec, Mod, Ext)):
            return v, v
        if isinstance(v, Ref) and self.heap[v.id].kind == 'inst':
            return v, v
        if isinstance(v, Ref):
            # container: only loop-carried when rebound
            return v, v
        if v is None:
            return v, v
        t = self.termof(v)
        return fresh('phi', is_int(t) and name not in force_real), t

    def is_rebound(self, ph, nx):
        if isinstance(ph, Tup):
            if not isinstance(nx, Tup) or len(nx.items) != len(ph.items):
                return not isinstance(nx, (Term, Sub))
            return any(self.is_rebound(p, x) for p, x in zip(ph.items, nx.items))
        if isinstance(ph, Term) and ph.op == 'var':
            return False
        return not same_value(ph, nx)

    def int_next(self, v):
        if isinstance(v, Sub):
            v = v.term
        return isinstance(v, Term) and is_int(v)

    def flatten_phi(self, system, key, ph, init, nx):
        if isinstance(ph, Tup):
            nxs = None
            if isinstance(nx, Tup) and len(nx.items) == len(ph.items):
                nxs = nx.items
            elif nx is not None:
                try:
                    nxs = self.unpack(nx, len(ph.items))
                except Unsupported:
                    nxs = None
            for k, (p, i) in enumerate(zip(ph.items, init.items)):
                self.flatten_phi(system, (key, k), p, i, nxs[k] if nxs else mk('opaque'))
            return
        if isinstance(ph, Term) and ph.op == 'var':
            system[key] = (ph, init, self.termof(nx) if nx is not None else ph)
            return
        if isinstance(ph, Ref) and nx is not None and not same_value(ph, nx):
            # a rebound container
            raise Rebound(key)
        if not same_value(ph, nx) and nx is not None:
            raise Rebound(key)

    def refin(self, system, key, ph, fin):
        if isinstance(ph, Tup):
            return Tup([self.refin(system, (key, k), p, fin) for k, p in enumerate(ph.items)], ph.rec)
        return fin.get(key, ph)

    def array_system(self, system, ob, n, ent, ctx):
        """an array the loop both reads and writes: its contents are loop-carried state"""
        ph = ent.val
        seg = ob.log[n:]
        if ent not in seg:
            return
        k = seg.index(ent)

        def used():
            if any(nx is not None and ph in nx.fv for p, i, nx in system.values()):
                return True
            for o in self.heap.values():
                for e in o.log:
                    if e is ent:
                        continue
                    v = e.val if isinstance(e.val, Term) else self.tv(e.val)
                    if ph in v.fv or ph in e.guard.fv or any(ph in x.fv for x in e.idx):
                        return True
            return any(isinstance(v, Term) and ph in v.fv for v in self.attrs.values()) or \
                any(isinstance(v, Term) and ph in v.fv for v in self.frames[-1].env.values()) or \
                any(ph in g.fv for c in ('brk', 'ret', 'cont') for g, _ in ctx[c])
        if not used():
            return
        # A[i] = A[i] + x  is  A[i] += x
        for e in seg[k + 1:]:
            if e.op != '=' or not e.idx:
                continue
            v = self.termof(e.val)
            self_ref = index(ph, e.idx)
            if self_ref.op == 'index':
                d = sub(v, self_ref)
                if ph not in d.fv:
                    e.op, e.val = '+=', d
                    continue
                z = pdict(v)
                if len(z) and all((self_ref, 1) in m for m in z):
                    q = mkpoly({tuple(x for x in m if x != (self_ref, 1)): c for m, c in z.items()})
                    if ph not in q.fv:
                        e.op, e.val = '*=', q
        if not used():
            return
        if not self.array_state:
            system[('arr', ob.id)] = (ph, ZERO, None)
            return
        if any(e.op == 'phi' for e in seg[k + 1:]):
            raise Unsupported('nested array state')

        def snap(base, ents):
            out = []
            for e in ents:
                e = e.copy()
                if not isinstance(e.val, Term):
                    e.val = self.termof(e.val)
                out.append(e)
            return canon_log(base, out)
        init = snap(ob.base, ob.log[:n + k])
        nx = snap(ph, seg[k + 1:])
        system[('arr', ob.id)] = (ph, init, nx)

    def base_name(self, ob):
        return ob.base if ob.kind == 'ext' else mk('str', ob.kind)

    # ------------------------------------------------------------ iteration
    def segments(self, it):
        """('items',[values]) | ('segs',[(binders,guard,elem,pos)])"""
        if isinstance(it, Choice):
            it = self.termof(it)
        if isinstance(it, Sub):
            it = self.termof(it)
        if isinstance(it, Tup):
            return ('items', list(it.items))
        if isinstance(it, Rng):
            n = const_value(it.n)
            if n is not None and n <= 4:
                return ('items', [add(it.lo, scale(it.step, k)) for k in range(max(0, int(n)))])
            v = fresh('k')
            binders = [(v, (ZERO, it.n))]
            elem = add(it.lo, mul(it.step, v))
            # triangular domains become guarded rectangular ones
            g = ONE
            tri = self.triangular(it)
            if tri is not None:
                hi = tri
                binders = [(v, (ZERO, hi))]
                end = add(it.lo, it.n)
                g = mul(sub(ONE, lt(v, it.lo)), lt(v, end))
                g = simp_facts(g, {**self.facts, v: (ZERO, hi)})
                elem = v
                return ('segs', [(binders, g, elem, sub(v, it.lo))])
            return ('segs', [(binders, g, elem, v)])
        if isinstance(it, Iter):
            return self.iter_segments(it)
        if isinstance(it, Ref):
            o = self.heap[it.id]
            if o.kind == 'list':
                its = self.const_items(it)
                if its is not None:
                    return ('items', its)
                if o.base.op == 'list' and not o.base.args and all(e.op == 'app' for e in o.log):
                    self.reads.add(it.id)
                    segs = []
                    base = ZERO
                    for e in o.log:
                        ren = {v: fresh('k') for v, d in e.binders}
                        b = [(ren[v], tuple(subst(x, ren) for x in d)) for v, d in e.binders]
                        g = subst(e.guard, ren)
                        p = None
                        if len(b) == 1:
                            u = fresh('u')
                            p = add(base, sum_over([(u, (ZERO, b[0][0]))], subst(g, {b[0][0]: u})) if g is not ONE else b[0][0])
                            base = add(base, sum_over(b, g))
                        elif not b:
                            p = base
                            base = add(base, g)
                        else:
                            base = mk('opaquepos')
                        segs.append((b, g, self.subval(e.val, ren), p))
                    if any(d[0] is not ZERO for s in segs for v, d in s[0]):
                        raise Unsupported('iteration domain')
                    return ('segs', segs)
            if o.kind == 'inst':
                m = self.prog.method(o.cls, '__iter__')
                if m:
                    return self.segments(self.inline(Fn(m, None, it), [], {}))
            if o.kind == 'dict':
                return self.segments(Iter('keys', [it]))
            t = self.snapshot(it)
            if t.op == 'tab' and len(t.args[0]) == 1:
                vs, parts = open_(t.args[2], t.args[0], t.args[1])
                return ('segs', [([(vs[0], parts[0][0])], ONE, parts[1], vs[0])])
            v = fresh('k')
            return ('segs', [([(v, (ZERO, self.length(it)))], ONE, Sub(self.read(it, (v,)), it, (v,)), v)])
        if isinstance(it, Term):
            c = self.selfcls.get(it)
            if c is not None:
                m = self.prog.method(c, '__iter__')
                if m:
                    return self.segments(self.inline(Fn(m, None, it), [], {}))
            t = self.cur(it)
            n = self.fixed_length(t)
            if n is not None:
                return ('items', [self.getitem(it, (const(k),)) for k in range(n)])
            if t.op in ('sym', 'attr') and t.args[-1] in DICTS:
                return self.segments(Iter('keys', [it]))
            if t.op in ('tup',):
                return ('items', list(t.args))
            if t.op == 'list':
                if all(s.op == 'it' for s in t.args):
                    return ('items', [s.args[0] for s in t.args])
                if len(t.args) == 1 and t.args[0].op == 'stream' and len(t.args[0].args[1]) == 3:
                    flags, parts, lv = t.args[0].args[:3]
                    vs, p = open_(lv, flags, parts)
                    pos = vs[0] if len(vs) == 1 and p[1] is ONE else None
                    return ('segs', [(list(zip(vs, p[0])), p[1], p[2], pos)])
            if t.op == 'tab' and len(t.args[0]) == 1:
                vs, parts = open_(t.args[2], t.args[0], t.args[1])
                return ('segs', [([(vs[0], parts[0][0])], ONE, parts[1], vs[0])])
            v = fresh('k')
            src = it
            return ('segs', [([(v, (ZERO, self.length(it)))], ONE,
                              Sub(index(t, (v,)), it, (v,)) if t.op in ('sym', 'attr', 'index') else index(t, (v,)), v)])
        raise Unsupported(f'iteration over {type(it).__name__}')

    def fixed_length(self, t):
        """length of a list attribute that only __init__ binds or grows"""
        if t.op != 'attr':
            return None
        c = self.selfcls.get(t.args[0])
        if c is None:
            return None
        return fixed_list(self.prog, c, t.args[1])

    def triangular(self, rng):
        if rng.step is not ONE:
            return None
        end = add(rng.lo, rng.n)
        fv = rng.lo.fv | end.fv
        loopv = [x for x in fv if x in self.facts]
        if not loopv:
            return None
        # hi: replace loop variables by their upper bounds when they occur positively
        def linear_in(x, v):
            return lin(x, v)
        e = end
        for v in loopv:
            l = lin(e, v)
            if v in e.fv:
                if l is None or l[0] != 1:
                    return None
                c0 = const_value(l[1])
                if c0 is None or c0 > 1:
                    return None
                e = self.facts[v][1]
        s = rng.lo
        for v in loopv:
            if v in s.fv:
                l = lin(s, v)
                if l is None or l[0] != 1:
                    return None
                c0 = const_value(l[1])
                if c0 is None or c0 < 0:
                    return None
                s = ZERO
        if const_value(s) is None or const_value(s) < 0:
            return None
        return e

    def const_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if o.kind != 'list' or o.base.op != 'list' or o.base.args:
                return None
            out = []
            for e in o.log:
                if e.op != 'app' or e.binders or e.guard is not ONE:
                    if e.op == '=' and not e.binders and e.guard is ONE and len(e.idx) == 1 and const_value(e.idx[0]) is not None:
                        k = int(const_value(e.idx[0]))
                        if -len(out) <= k < len(out):
                            out[k] = e.val
                            continue
                    return None
                out.append(e.val)
            self.reads.add(v.id)
            return out
        if isinstance(v, Term):
            t = self.cur(v)
            if t.op == 'tup':
                return list(t.args)
            if t.op == 'list' and all(s.op == 'it' for s in t.args):
                return [s.args[0] for s in t.args]
        if isinstance(v, Sub):
            return self.const_items(v.term)
        if isinstance(v, Rng):
            n = const_value(v.n)
            if n is not None and n <= 8:
                return [add(v.lo, scale(v.step, k)) for k in range(int(n))]
        if isinstance(v, Iter):
            s = self.iter_segments(v)
            return s[1] if s[0] == 'items' else None
        return None

    def early_item(self, v, k):
        """an element put in before anything uncertain is appended stays where it is"""
        o = self.heap[v.id]
        if k is None or k.denominator != 1 or k < 0 or o.base.op != 'list' or o.base.args or any(e.op != 'app' for e in o.log):
            return None
        for n, e in enumerate(o.log):
            if e.binders or e.guard is not ONE:
                return None
            if n == k:
                self.reads.add(v.id)
                return e.val
        return None

    def materialise(self, it):
        r = self.new('list', mk('list'))
        o = self.heap[r.id]
        self.for_each(it, lambda e, i: self.log(o, 'app', (), e), set())
        return r

    def iter_segments(self, it):
        k, ops = it.kind, it.ops
        if k == 'enumerate':
            s = self.segments(ops[0])
            start = ops[1] if len(ops) > 1 else ZERO
            if s[0] == 'items':
                return ('items', [Tup([add(start, const(i)), x]) for i, x in enumerate(s[1])])
            out = []
            for b, g, e, p in s[1]:
                if p is None:
                    raise Unsupported('position in nested iteration')
                out.append((b, g, Tup([add(start, p), e]), p))
            return ('segs', out)
        if k == 'zip':
            ss = [self.segments(x) for x in ops]
            if all(s[0] == 'items' for s in ss):
                return ('items', [Tup(x) for x in zip(*[s[1] for s in ss])])
            if any(s[0] == 'items' for s in ss):
                n = min(len(s[1]) for s in ss if s[0] == 'items')
                rows = []
                for q in range(n):
                    row = []
                    for s, o in zip(ss, ops):
                        row.append(s[1][q] if s[0] == 'items' else self.getitem(o, (const(q),)))
                    rows.append(Tup(row))
                return ('items', rows)
            v = fresh('k')
            elems, ns = [], []
            for s in ss:
                if len(s[1]) != 1 or len(s[1][0][0]) != 1 or s[1][0][1] is not ONE:
                    raise Unsupported('zip of filtered iterations')
                b, g, e, p = s[1][0]
                elems.append(self.subval(e, {b[0][0]: v}))
                ns.append(b[0][1][1])
            n = min(ns, key=lambda x: x.dig)
            return ('segs', [([(v, (ZERO, n))], ONE, Tup(elems), v)])
        if k == 'product':
            ss = [self.segments(x) for x in ops]
            sizes = 1
            if all(s[0] == 'items' for s in ss):
                rows = [()]
                for s in ss:
                    rows = [r + (x,) for r in rows for x in s[1]]
                if len(rows) <= 16:
                    return ('items', [Tup(r) for r in rows])
            binders, guard, elems = [], ONE, []
            for s in ss:
                if s[0] == 'items' or len(s[1]) != 1:
                    raise Unsupported('product of mixed iterations')
                b, g, e, p = s[1][0]
                ren = {v: fresh('k') for v, d in b}
                binders += [(ren[v], tuple(subst(x, ren) for x in d)) for v, d in b]
                guard = mul(guard, subst(g, ren))
                elems.append(self.subval(e, ren))
            return ('segs', [(binders, guard, Tup(elems), None)])
        if k == 'ndindex':
            return self.iter_segments(Iter('product', [Rng(ZERO, ONE, x) for x in ops]))
        if k in ('permutations', 'combinations'):
            its = self.const_items(ops[0])
            r = const_value(ops[1]) if len(ops) > 1 else None
            if its is None:
                raise Unsupported(k)
            import itertools
            r = int(r) if r is not None else len(its)
            return ('items', [Tup(x) for x in getattr(itertools, k)(its, r)])
        if k == 'reversed':
            s = self.segments(ops[0])
            if s[0] == 'items':
                return ('items', list(reversed(s[1])))
            if len(s[1]) == 1 and len(s[1][0][0]) == 1:
                b, g, e, p = s[1][0]
                v = fresh('k')
                sm = {b[0][0]: sub(sub(b[0][1][1], ONE), v)}
                return ('segs', [([(v, b[0][1])], subst(g, sm), self.subval(e, sm), v if g is ONE else None)])
            raise Unsupported('reversed')
        if k == 'map':
            f, xs = ops[0], ops[1:]
            s = self.segments(xs[0] if len(xs) == 1 else Iter('zip', xs))
            if s[0] == 'items':
                return ('items', [self.call(f, list(x.items) if len(xs) > 1 else [x], {}) for x in s[1]])
            return ('segs', [(b, g, self.call(f, list(e.items) if len(xs) > 1 else [e], {}), p) for b, g, e, p in s[1]])
        if k == 'filter':
            f, x = ops
            s = self.segments(x)
            if s[0] == 'items':
                return ('segs', [([], self.truth(self.call(f, [e], {})), e, None) for e in s[1]])
            return ('segs', [(b, mul(g, self.truth(self.call(f, [e], {}))), e, None) for b, g, e, p in s[1]])
        if k in ('keys', 'items', 'values'):
            d = ops[0]
            if isinstance(d, Ref) and self.heap[d.id].kind == 'dict':
                o = self.heap[d.id]
                if o.base.op == 'dict' and all(e.op == '=' for e in o.log):
                    self.reads.add(d.id)
                    segs = []
                    for e in o.log:
                        ren = {v: fresh('k') for v, _ in e.binders}
                        b = [(ren[v], tuple(subst(x, ren) for x in dd)) for v, dd in e.binders]
                        key = mk('tup', *[subst(x, ren) for x in e.idx]) if len(e.idx) > 1 else subst(e.idx[0], ren)
                        key = Tup(key.args) if key.op == 'tup' else key
                        val = self.subval(e.val, ren)
                        el = key if k == 'keys' else val if k == 'values' else Tup([key, val])
                        segs.append((b, subst(e.guard, ren), el, None))
                    if all(not s[0] and s[1] is ONE for s in segs):
                        return ('items', [s[2] for s in segs])
                    return ('segs', segs)
            t = self.termof(d)
            v = fresh('k')
            key = mk('key', t, v)
            val = Sub(index(t, (key,)), d, (key,)) if isinstance(d, (Term, Ref)) else index(t, (key,))
            el = key if k == 'keys' else val if k == 'values' else Tup([key, val])
            return ('segs', [([(v, (ZERO, mk('len', t)))], ONE, el, v)])
        raise Unsupported(f'iterator {k}')

    def length(self, v):
        its = None
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, Rng):
            return v.n
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if o.kind == 'list' and o.base.op == 'list' and not o.base.args and all(e.op == 'app' for e in o.log):
                self.reads.add(v.id)
                return total(*[sum_over(e.binders, e.guard) if e.binders else e.guard for e in o.log])
            t = self.termof(v)
        else:
            c = self.selfcls.get(v) if isinstance(v, Term) else None
            m = c and self.prog.method(c, '__len__')
            if m:
                return self.termof(self.inline(Fn(m, None, v), [], {}))
            t = self.termof(v)
        return length(t)

    # ------------------------------------------------------------ writes / reads
    def ref_of(self, base):
        if isinstance(base, Ref):
            return base
        if isinstance(base, Term):
            return self.ext(base)
        if isinstance(base, Sub):
            return self.ref_of(base.base)
        raise Unsupported(f'write through {type(base).__name__}')

    def write(self, base, idx, op, v):
        if isinstance(base, Choice):
            pc = self.pc
            for g, b in base.alts:
                self.pc = pc + (g,)
                self.write(b, idx, op, v)
            self.pc = pc
            return
        idx = tuple(idx)
        if isinstance(base, Sub):
            if base.idx and base.idx[-1].op == 'str' and False:
                pass
            return self.write(base.base, compose(base.idx, idx), op, v)
        if isinstance(base, Tup):
            raise Unsupported('write to tuple')
        if isinstance(base, Bound):
            # obj.flat[...] etc.
            return self.write(base.recv, (mk('str', base.name),) + idx, op, v)
        if isinstance(base, (Cls, Fn)):
            return
        if isinstance(base, Ref) and self.heap[base.id].kind == 'inst':
            m = self.prog.method(self.heap[base.id].cls, '__setitem__')
            if m and op == '=':
                self.inline(Fn(m, None, base), [idx[0] if len(idx) == 1 else Tup(idx), v], {})
                return
            raise Unsupported('item of instance')
        if isinstance(base, Term) and base.op in ('app', 'call') and base.args[0] in ('T',):
            pass
        if isinstance(base, Term) and base.op == 'poly':
            alts = places(base)
            if alts:
                return self.write(Choice(alts), idx, op, v)
        ref = self.ref_of(base)
        idx = self.whole(ref, idx)
        if idx and all(x.op == 'slice' and all(y is NONE for y in x.args) for x in idx) or idx and idx[0].op == 'ellipsis' and len(idx) == 1:
            idx = ()
        if not isinstance(v, Term) and not isinstance(v, (Ref, Tup, Fn, Choice)):
            v = self.termof(v)
        elif isinstance(v, Term):
            v = self.cur(v)
        if self.heap[ref.id].kind in ('arr', 'ext') and not isinstance(v, Term):
            v = self.termof(v)
        if isinstance(v, Term) and v.op == 'attr' and v.args[1] == 'flat' and op == '=' and idx and isinstance(v.args[0], Term):
            # what is copied from x.flat are the elements of x in order
            v = self.termof(extern.pure(self, v.args[0], 'ravel', [], {}))
        if op == '=' and idx and isinstance(v, Term) and v.op == 'poly' and len(v.args[0]) <= 200 \
                and self.heap[ref.id].kind in ('arr', 'ext', 'list') and const_value(v) is None:
            op, v = self.accumulation(ref, idx, v)
        self.log(self.heap[ref.id], op, idx, v)

    def accumulation(self, ref, idx, v):
        """x[i] = x[i] + d  is  x[i] += d"""
        atoms = {a for m, c in v.args[0] for a, e in m}
        if not any(a.op in ('index', 'par', 'var', 'len') for a in atoms):
            return '=', v
        reads0 = set(self.reads)
        cur = self.read(ref, idx)
        self.reads = reads0
        if not isinstance(cur, Term) or cur.op == 'poly' or cur not in atoms:
            return '=', v
        d = dict(v.args[0])
        one = ((cur, 1),)
        if d.get(one) == 1:
            r = sub(v, cur)
            if not any(a is cur for m, c in pitems(r) for a, e in m):
                return '+=', r
        if all(one[0] in m for m in d):
            r = mkpoly({tuple(x for x in m if x[0] is not cur): c for m, c in d.items()})
            return '*=', r
        return '=', v

    def read(self, ref, idx):
        """value of obj[idx]"""
        o = self.heap[ref.id]
        self.reads.add(ref.id)
        idx = tuple(idx)
        if not o.log:
            return self._rbase(o.base, idx, o)
        if o.kind in ('list',):
            its = self.const_items(ref)
            if its is not None and len(idx) >= 1:
                k = const_value(idx[0])
                if k is not None and k.denominator == 1 and -len(its) <= k < len(its):
                    v = its[int(k)]
                    return self.termof(v) if len(idx) == 1 else index(self.termof(v), idx[1:])
            return index(self.snapshot(ref), idx)
        stack = []
        P = self.pcterm()
        base = None
        for e in reversed(o.log):
            if e.op == 'phi':
                base = index(e.val, idx)
                break
            m = self.match(e, idx)
            if m is None:
                return index(self.snapshot(ref), idx)
            if m is False:
                continue
            C, val = m
            if C is ZERO:
                continue
            try:
                PC = mul(P, C)
                if PC is ZERO:
                    continue
                if PC is P:
                    C = ONE
            except TooBig:
                pass
            stack.append((C, e.op, val))
            if C is ONE and e.op == '=':
                break
        r = base if base is not None else self._rbase(o.base, idx, o)
        for C, op, val in reversed(stack):
            if op == '=':
                r = val if (C is ONE or r is UNDEF) else ite(C, val, r)
            elif op == '+=':
                r = add(r, mul(C, val))
            elif op == '*=':
                r = mul(r, ite(C, val, ONE))
            else:
                return index(self.snapshot(ref), idx)
        return r

    def _rbase(self, b, idx, o):
        if b.op == 'full':
            if b.args[0].op != 'tup' or len(b.args[0].args) == len(idx):
                if not has_slice(idx):
                    return b.args[1]
        if b.op == 'dict' and not b.args:
            return mk('missing')
        if b.op == 'defaultdict':
            return b.args[0]
        return index(b, idx)

    def match(self, e, idx):
        if e.op not in ('=', '+=', '*='):
            return None
        val = e.val if isinstance(e.val, Term) else self.termof(e.val)
        if not e.idx:
            if const_value(val) is not None:
                return e.guard, val
            if e.binders:
                return None
            return e.guard, index(val, idx)
        if len(e.idx) > len(idx):
            return None
        rest = ()
        if len(e.idx) < len(idx):
            rest = idx[len(e.idx):]
        sm = {}
        C = ONE
        vs = [v for v, d in e.binders]
        for x, y in zip(e.idx, idx):
            if x.op in ('slice', 'newaxis', 'ellipsis') or y.op in ('slice', 'newaxis', 'ellipsis'):
                if x is y and not (x.fv & set(vs)):
                    continue
                return None
            x = subst(x, sm)
            free = [v for v in vs if v in x.fv and v not in sm]
            if not free:
                d = sub(x, y)
                if (x.op == 'str' and y.op == 'str') or (x.op == 'tup' and y.op == 'tup'):
                    if x is y:
                        continue
                    if x.op == 'str':
                        return False
                    if len(x.args) == len(y.args):
                        c = ONE
                        for p, q in zip(x.args, y.args):
                            c = mul(c, eq(p, q))
                        C = mul(C, c)
                        if C is ZERO:
                            return False
                        continue
                c = simp_facts(eq0(d), self.facts)
                C = mul(C, c)
                if C is ZERO:
                    return False
                continue
            if len(free) > 1:
                return None
            if x.op == 'tup' and y.op == 'tup' and len(x.args) == len(y.args):
                ok = True
                for p, q in zip(x.args, y.args):
                    l = lin(p, free[0])
                    if l and free[0] not in sm:
                        sm[free[0]] = scale(sub(q, l[1]), l[0])
                if free[0] not in sm:
                    return None
                for p, q in zip(x.args, y.args):
                    C = mul(C, eq(subst(p, sm), q))
                continue
            l = lin(x, free[0])
            if l is None:
                if x is y:
                    return None
                return None
            sm[free[0]] = scale(sub(y, l[1]), l[0])
        extra = [(v, d) for v, d in e.binders if v not in sm]
        for v, d in e.binders:
            if v in sm:
                lo, hi = (subst(q, sm) for q in d)
                c = mul(sub(ONE, lt(sm[v], lo)), lt(sm[v], hi))
                C = mul(C, simp_facts(c, self.facts))
        C = simp_facts(C, self.facts)
        if C is ZERO:
            return False
        g = subst(e.guard, sm)
        v = subst(val, sm)
        if rest:
            v = index(v, rest)
        if extra:
            if e.op != '+=':
                return None
            ex = [(x, tuple(subst(q, sm) for q in d)) for x, d in extra]
            ren = {x: fresh('k') for x, _ in ex}
            ex2 = [(ren[x], tuple(subst(q, ren) for q in d)) for x, d in ex]
            return C, sum_over(ex2, mul(subst(g, ren), subst(v, ren)))
        return mul(C, g), v

    # ------------------------------------------------------------ attributes
    def root(self, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Term):
            return v
        if isinstance(v, Sub):
            return v.term
        return None

    def setattr(self, obj, name, v):
        if isinstance(obj, Choice):
            pc = self.pc
            for g, b in obj.alts:
                k = (self.root(b), name)
                old = self.attrs.get(k)
                if old is None and isinstance(k[0], Term):
                    old = mk('attr', k[0], name)
                self.attrs[k] = self.merge_val(g, v, old)
            return
        if isinstance(obj, Fn):
            return
        r = self.root(obj)
        if r is None:
            raise Unsupported('attribute of ' + type(obj).__name__)
        if name == 'shape' and isinstance(obj, Ref) and self.heap[obj.id].kind == 'arr' and \
                self.heap[obj.id].base.op in ('full', 'tab', 'app', 'poly', 'arr') and not self.pc:
            o = self.heap[obj.id]
            t = self.termof(v)
            if t.op == 'tup':
                o.base = mk('app', 'reshape', self.termof(obj), t)
                o.log = []
                return
        cls = self.class_of(obj)
        if cls is not None:
            # property setter
            pass
        if isinstance(v, Sub) and not any(x.op == 'slice' for x in v.idx):
            pass
        self.attrs[(r, name)] = v

    def class_of(self, v):
        if isinstance(v, Ref):
            o = self.heap[v.id]
            return o.cls if o.kind == 'inst' and isinstance(o.cls, Class) else None
        if isinstance(v, Term):
            return self.selfcls.get(v)
        return None

    def getattr(self, v, name):
        if isinstance(v, Choice):
            r = None
            alts = [(g, self.getattr(x, name)) for g, x in v.alts]
            r = alts[-1][1]
            for g, x in reversed(alts[:-1]):
                r = self.merge_val(g, x, r)
            return r
        if isinstance(v, Mod):
            return self.modattr(v.name, name)
        if isinstance(v, Ext):
            return Ext(v.name + '.' + name)
        if isinstance(v, Cls):
            m = self.prog.method(v.cls, name)
            if m:
                return Fn(m)
            if name == '__name__':
                return mk('str', v.cls.name)
            return mk('attr', self.termof(v), name)
        if isinstance(v, Tup):
            if v.rec is not None and name in v.rec.fields:
                return v.items[v.rec.fields.index(name)]
            return Bound(v, name)
        if isinstance(v, (Fn, Rng, Iter, Rec)):
            if isinstance(v, Fn) and isinstance(v.func.node, (ast.FunctionDef, ast.Lambda)):
                k = (id(v.func.node), name)
            return Bound(v, name)
        r = self.root(v)
        if (r, name) in self.attrs:
            return self.attrs[(r, name)]
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if o.kind == 'inst':
                return self.class_attr(v, o.cls, name)
            if name in extern.ARRAY_ATTRS:
                return extern.array_attr(self, v, name)
            return Bound(v, name)
        if isinstance(v, Bound):
            return Bound(v, name)
        t = v.term if isinstance(v, Sub) else v
        cls = self.selfcls.get(t)
        if cls is not None:
            m = self.prog.method(cls, name)
            if m and not abstract(m):
                return self.class_attr(v, cls, name)
            return self.attr_term(t, name)
        if name in extern.ARRAY_ATTRS:
            return extern.array_attr(self, v, name)
        if name in extern.METHODS or name in extern.MUTATORS:
            return Bound(v, name)
        return self.attr_term(t, name)

    def attr_term(self, t, name):
        ver = self.attrs.get((t, '$ver'))
        if t.op == 'nt' or t.op == 'inst':
            pass
        if t.op == 'inst':
            a = t.args[1:]
            for k in range(0, len(a), 2):
                if a[k].args[0] == name:
                    return a[k + 1]
        if t.op == 'poly':
            t = self.cur(t)
        if ver is not None:
            ver = frontier(relevant(events(ver), lambda e: not unaffected(self.prog, method_of(e), name)))
        if ver is not None:
            return mk('attr', mk('st', t, ver), name)
        return mk('attr', t, name)

    def class_attr(self, v, cls, name):
        if isinstance(cls, Record):
            return Bound(v, name)
        m = self.prog.method(cls, name)
        if m:
            kinds = {d.id for d in m.node.decorator_list if isinstance(d, ast.Name)} | \
                    {d.attr for d in m.node.decorator_list if isinstance(d, ast.Attribute)}
            if 'property' in kinds or 'cached_property' in kinds:
                return self.inline(Fn(m, None, v), [], {})
            if 'staticmethod' in kinds:
                return Fn(m)
            return Fn(m, None, v)
        c = cls
        seen = set()
        while c is not None and c.qual not in seen:
            seen.add(c.qual)
            if name in c.assigns:
                return self.eval_in(c.module, c.assigns[name])
            nb = None
            for b in c.bases:
                nb = self.prog.base_class(c, b) or nb
            c = nb
        g = self.prog.method(cls, '__getattr__')
        if g is not None and isinstance(v, Ref):
            return self.inline(Fn(g, None, v), [mk('str', name)], {})
        return mk('attr', self.termof(v), name) if isinstance(v, Term) else Bound(v, name)

    # ------------------------------------------------------------ names
    def load(self, name):
        fr = self.frames[-1]
        if name in fr.env:
            v = fr.env[name]
            if v is None:
                return mk('undefined')
            return v
        for env in fr.parent or ():
            if name in env:
                return env[name]
        return self.global_name(fr.module, name)

    def global_name(self, module, name):
        e = module.names.get(name)
        if e is not None:
            r = self.prog.resolve(module.name, name)
            return self.resolved(r, module.name, name)
        if name in extern.BUILTINS:
            return Ext('builtins.' + name)
        r = self.prog.star(module, name, ())
        if r is not None:
            return self.resolved(r, module.name, name)
        return mk('ref', 'global:' + name)

    def resolved(self, r, mod, name):
        if r is None:
            return mk('ref', f'{mod}.{name}')
        k = r[0]
        if k == 'func':
            return Fn(r[1])
        if k == 'class':
            return Cls(r[1])
        if k == 'record':
            return Rec(r[1])
        if k == 'module':
            return Mod(r[1])
        if k == 'ext':
            return Ext(r[1])
        if k == 'assign':
            m, expr = r[1], r[2]
            if expr is None:
                return mk('ref', f'{m.name}.{r[3] if len(r) > 3 else name}')
            key = (m.name, id(expr))
            if isinstance(expr, ast.Lambda):
                return Fn(Func(m, expr, name=r[3] if len(r) > 3 else name))
            if key in self.modcache:
                return self.modcache[key]
            self.modcache[key] = mk('ref', f'{m.name}.{name}')
            try:
                v = self.eval_in(m, expr)
            except Unsupported:
                v = mk('ref', f'{m.name}.{name}')
            if isinstance(v, Ref) and self.heap[v.id].kind != 'list':
                v = self.termof(v)
            if isinstance(v, Ref):
                its = self.const_items(v)
                v = Tup(its) if its is not None else self.termof(v)
            if isinstance(v, Ext) and v.name in ('numpy.uint32', 'numpy.uint64'):
                v = Ext('edpyt.unsigned_dtype')
            self.modcache[key] = v
            return v
        return mk('ref', f'{mod}.{name}')

    def modattr(self, mod, name):
        if mod in self.prog.modules:
            return self.resolved(self.prog.resolve(mod, name), mod, name)
        if mod.split('.')[0] in ('edpyt', 'edpyt_backend'):
            return self.resolved(self.prog.resolve(mod, name), mod, name)
        return Ext(mod + '.' + name)

    def eval_in(self, module, expr):
        fr = Frame(module, None, {})
        self.frames.append(fr)
        sc = self.push_scope()
        try:
            return self.eval(expr)
        finally:
            self.scopes.pop()
            self.frames.pop()

    def default(self, func, fn, expr):
        fr = Frame(func.module, None, {}, fn.env)
        self.frames.append(fr)
        try:
            return self.eval(expr)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ calls
    def bind_args(self, fn, args, kwargs):
        """-> env dict of parameters, or None"""
        node = fn.func.node
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if fn.selfv is not None:
            args = [fn.selfv] + args
        # expand star terms
        out = []
        for k, x in enumerate(args):
            if isinstance(x, Star):
                rest = len([y for y in args[k + 1:]])
                if a.vararg and len(out) >= len(ps):
                    out.append(x)
                    continue
                its = self.const_items(x.v)
                if its is not None:
                    out.extend(its)
                    continue
                need = len(ps) - len(out) - rest - sum(1 for p in ps if p in kwargs)
                if a.vararg:
                    out.append(x)
                    continue
                nd = len(a.defaults)
                vals = self.unpack(x.v, max(need, 0))
                out.extend(vals)
            else:
                out.append(x)
        args = out
        env = {}
        pos = list(args[:len(ps)])
        extra = list(args[len(ps):])
        for p, v in zip(ps, pos):
            if isinstance(v, Star):
                raise Unsupported('starred argument')
            env[p] = v
        if extra:
            if not a.vararg:
                raise Unsupported(f'too many arguments for {fn.func.name}')
        if a.vararg:
            if len(extra) == 1 and isinstance(extra[0], Star):
                env[a.vararg.arg] = extra[0].v
            else:
                if any(isinstance(x, Star) for x in extra):
                    raise Unsupported('starred argument')
                env[a.vararg.arg] = Tup(extra)
        kw = dict(kwargs)
        star2 = kw.pop('**', None)
        extra_kw = {}
        for k, v in kw.items():
            if k in ps or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra_kw[k] = v
        nd = len(a.defaults)
        for k, p in enumerate(ps):
            if p not in env:
                j = k - (len(ps) - nd)
                if j >= 0:
                    env[p] = self.default(fn.func, fn, a.defaults[j])
                elif star2 is not None:
                    env[p] = index(self.termof(star2), (mk('str', p),))
                else:
                    raise Unsupported(f'missing argument {p} of {fn.func.name}')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.default(fn.func, fn, d) if d is not None else mk('missing')
        if a.kwarg:
            if star2 is not None and not extra_kw:
                env[a.kwarg.arg] = star2
            else:
                r = self.new('dict', mk('dict'))
                for k, v in extra_kw.items():
                    self.log(self.heap[r.id], '=', (mk('str', k),), v)
                env[a.kwarg.arg] = r
        elif extra_kw:
            raise Unsupported(f'unknown keyword {list(extra_kw)} of {fn.func.name}')
        return env

    def call(self, f, args, kwargs):
        if isinstance(f, Choice):
            pc = self.pc
            res = []
            mark = self.mark()
            s0 = self.save()
            s = s0
            r = None

            def go(alts):
                g, x = alts[0]
                if len(alts) == 1:
                    return self.call(x, args, kwargs)
                box = {}

                def f1():
                    box['a'] = self.call(x, args, kwargs)

                def f2():
                    rest = alts[1:]
                    box['b'] = go(rest)
                self.branch(g, f1, f2)
                if 'a' not in box:
                    return box['b']
                if 'b' not in box:
                    return box['a']
                return self.merge_val(g, box['a'], box['b'])
            return go(f.alts)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f.cls, args, kwargs)
        if isinstance(f, Rec):
            return self.record(f.rec, args, kwargs)
        if isinstance(f, Ext):
            return extern.call(self, f.name, args, kwargs)
        if isinstance(f, Bound):
            return extern.method(self, f.recv, f.name, args, kwargs)
        if isinstance(f, Ref):
            o = self.heap[f.id]
            if o.kind == 'inst' and isinstance(o.cls, Class):
                m = self.prog.method(o.cls, '__call__')
                if m:
                    return self.call_fn(Fn(m, None, f), args, kwargs)
        if isinstance(f, Sub):
            return self.call_term(f.term, args, kwargs, f)
        if isinstance(f, Term):
            c = self.selfcls.get(f)
            if c is not None:
                m = self.prog.method(c, '__call__')
                if m:
                    return self.call_fn(Fn(m, None, f), args, kwargs)
                return mk('call', self.cur(f), *self.argterms(args, kwargs))
            return self.call_term(f, args, kwargs, None)
        raise Unsupported(f'call of {type(f).__name__}')

    def call_term(self, f, args, kwargs, origin):
        """call of an unknown function value"""
        if f.op == 'attr':
            recv, name = f.args
            m = self.selfcls.get(recv) and self.prog.method(self.selfcls[recv], name)
            if m and abstract(m):
                # what a subclass computes; its own law says what
                return mk('call', mk('attr', self.cur(recv), name), *self.argterms(args, kwargs))
            return self.method_effect(recv, name, args, kwargs)
        if f.op == 'lam' and not kwargs and not any(isinstance(a, Star) for a in args):
            flags, parts, base = f.args[:3]
            if len(flags) == len(args) and not parts[2]:
                vs, p = open_(base, flags, parts)
                return subst(p[0], dict(zip(vs, [self.termof(a) for a in args])))
        b = extern.blas_name(f)
        if b and not any(isinstance(a, Star) for a in args):
            r = extern.blas(self, b, args, kwargs)
            if r is not None:
                self.recorded = r
                return r
            t = mk('call', self.cur(f), *self.argterms(args, kwargs))
            self.log(self.calls, 'call', (), t)
            return t
        return mk('call', self.cur(f), *self.argterms(args, kwargs))

    def method_effect(self, recv, name, args, kwargs):
        """method of an object whose class is not known: recorded in order"""
        while recv.op == 'st' and (recv.args[0], '$ver') in self.attrs and (recv, '$ver') not in self.attrs:
            recv = recv.args[0]
        m = added(self.prog, name)
        if m is not None:
            return self.inline(Fn(m, None, recv), args, kwargs)
        r = self.cur(recv)
        old = self.attrs.get((recv, '$ver'))
        if old is not None and r.op == 'st' and name not in extern.QUERIES:
            # what the method finds depends only on the calls it does not commute with
            r = self._ver(recv, r.args[0], lambda e: not commute(self.prog, method_of(e), name))
        at_ = self.argterms(args, kwargs)
        t = mk('call', mk('attr', r, name), *at_)
        if name in extern.QUERIES:
            return t
        self.log(self.calls, 'call', (), t)
        if old is None or r.op == 'st' and r.args[1] is old:
            self.attrs[(recv, '$ver')] = t
        else:
            past = closure(events(r.args[1]) if r.op == 'st' else [])
            self.attrs[(recv, '$ver')] = frontier([e for e in events(old) if e not in past] + [t])
        if name in COMM:
            bufs = [a for a in args if isinstance(a, (Ref, Sub)) or isinstance(a, Term) and a.op in ('sym', 'attr', 'index')]
            for k, a in enumerate(args):
                w = None
                if isinstance(a, (Ref, Sub)) and not (isinstance(a, Ref) and self.heap[a.id].kind in ('inst', 'dict')):
                    w = a
                elif isinstance(a, Term) and a.op in ('sym', 'attr', 'index'):
                    w = a
                elif isinstance(a, Ref) or isinstance(a, Tup):
                    pass
                if w is not None and (k > 0 or name in ('Bcast', 'Recv') or len(args) == 1):
                    self.write(w, (), '=', mk('recv', t, const(k)))
        return t

    def argterms(self, args, kwargs):
        out = []
        for a in args:
            if isinstance(a, Star):
                its = self.const_items(a.v)
                if its is not None:
                    out += [self.termof(x) for x in its]
                else:
                    out.append(mk('star', self.termof(a.v)))
            else:
                out.append(self.termof(a))
        for k in sorted(kwargs):
            out.append(mk('kw', k, self.termof(kwargs[k])))
        return out

    def ufunc_out(self, f, args, kwargs):
        """generalised ufuncs allocate a missing output and return it"""
        if not isinstance(f.node, ast.FunctionDef):
            return None
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'guvectorize':
                sig = [x.value for x in d.args if isinstance(x, ast.Constant) and isinstance(x.value, str) and '->' in x.value]
                if not sig:
                    return None
                ins, outs = sig[0].replace(' ', '').split('->')
                ins = [x.strip('()').split(',') for x in ins.replace('),(', ')|(').split('|')]
                outs = [x.strip('()').split(',') for x in outs.replace('),(', ')|(').split('|')]
                ps = [x.arg for x in f.node.args.args]
                if len(outs) != 1 or len(ps) != len(ins) + 1:
                    return None
                return ps, ins, outs[0]
        return None

    def call_fn(self, fn, args, kwargs):
        f = fn.func
        u = self.ufunc_out(f, args, kwargs)
        if u is not None and not any(isinstance(a, Star) for a in args):
            ps, ins, out = u
            args, kwargs = list(args), dict(kwargs)
            given = len(args) == len(ps) or ps[-1] in kwargs or 'out' in kwargs
            if not given and len(args) == len(ins):
                dims = {}
                for names_, a in zip(ins, args):
                    for k, d in enumerate(names_):
                        if d and d not in dims:
                            t = self.termof(a)
                            dims[d] = length(t) if len(names_) == 1 else index(mk('attr', t, 'shape'), (const(k),))
                args.append(self.new('arr', mk('full', mk('tup', *[dims[d] for d in out]), UNDEF, NONE), loc=self.loc()))
            elif 'out' in kwargs and ps[-1] != 'out':
                args.append(kwargs.pop('out'))
            buf = args[-1] if len(args) == len(ps) else kwargs.get(ps[-1])
            self.call_plain(fn, args, kwargs)
            return buf if not isinstance(buf, Term) else buf
        return self.call_plain(fn, args, kwargs)

    def call_plain(self, fn, args, kwargs):
        f = fn.func
        q = self.qual(f)
        if q in self.opaque and f not in self.stack[:1] or (f in self.stack):
            return self.opaque_call(fn, args, kwargs)
        if len(self.stack) > MAXDEPTH:
            return self.opaque_call(fn, args, kwargs)
        return self.inline(fn, args, kwargs)

    def opaque_call(self, fn, args, kwargs):
        f = fn.func
        q = self.qual(f)
        name = self.opaque.get(q, q)
        env = self.bind_args(fn, args, kwargs)
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = [env[p] for p in ps]
        ts = [self.termof(v) for v in vals]
        if a.vararg:
            v = env[a.vararg.arg]
            its = self.const_items(v)
            ts += [self.termof(x) for x in its] if its is not None else [mk('star', self.termof(v))]
        for x in a.kwonlyargs:
            vals.append(env[x.arg])
            ts.append(mk('kw', x.arg, self.termof(env[x.arg])))
        if a.kwarg:
            ts.append(mk('kw', '**', self.termof(env[a.kwarg.arg])))
        if not is_generator(f.node) and isinstance(f.node, ast.FunctionDef) and self.trynames_active():
            for nm in self.may_raise(f):
                pc = self.pc
                self.pc = pc + (mk('raises', mk('app', name, *ts), nm),)
                self.log(self.raises, 'raise', (), mk('str', nm))
                self.pc = pc
        t = mk('app', name, *ts)
        eff = self.effects(f)
        if eff['calls'] or eff['writes']:
            self.log(self.calls, 'call', (), t)
        for k in eff['writes']:
            if k < len(vals):
                v = vals[k]
                if isinstance(v, (Ref, Sub)) and not (isinstance(v, Ref) and self.heap[v.id].kind == 'inst'):
                    self.write(v, (), '=', mk('out', t, const(k)))
                elif isinstance(v, (Term, Ref)):
                    self.attrs[(v, '$ver')] = t
        for k in eff.get('pokes', ()):
            if k < len(vals) and k not in eff['writes']:
                v = vals[k]
                if isinstance(v, Term) or isinstance(v, Ref) and self.heap[v.id].kind == 'inst':
                    self.attrs[(v, '$ver')] = t
        return t

    def trynames_active(self):
        return bool(getattr(self, 'trynames', None))

    def may_raise(self, f):
        """named errors of an opaque function that an enclosing try handles"""
        wanted = {n for ns in self.trynames for n in ns}
        if '*' in wanted or 'Exception' in wanted:
            return ['Exception'] if f.name not in ('binsearch',) else []
        found = set()
        seen = set()

        def scan(fn, depth):
            if fn in seen or depth > 3:
                return
            seen.add(fn)
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    nm = ast.unparse(e).split('.')[-1]
                    if nm in wanted:
                        found.add(nm)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    r = self.prog.resolve(fn.module.name, n.func.id) if n.func.id in fn.module.names else \
                        self.prog.star(fn.module, n.func.id, ())
                    if r and r[0] == 'func':
                        scan(r[1], depth + 1)
        scan(f, 0)
        return sorted(found)

    def effects(self, f):
        """which parameters an opaque function writes, and whether it has call effects"""
        q = self.qual(f)
        r = self.effect_cache.get(q)
        if r is None:
            e = self.prog.__dict__.get('_effects')
            if e is None:
                e = self.prog._effects = Effects(self.prog)
            r = self.effect_cache[q] = e.simple(f)
        return r

    def inline(self, fn, args, kwargs, raw=False):
        f = fn.func
        if len(self.stack) > MAXDEPTH + 6:
            raise Unsupported('inlining depth')
        env = self.bind_args(fn, args, kwargs)
        fr = Frame(f.module, f, env, fn.env)
        line = getattr(self, 'line', 0)
        mark = self.mark()
        self.frames.append(fr)
        self.stack.append(f)
        self.push_scope()
        try:
            val = self.run_body(fr, f.node)
            alldead = not fr.rets and fr.yields is None and not isinstance(f.node, ast.Lambda)
        except BaseException:
            self.scopes.pop()
            self.frames.pop()
            self.stack.pop()
            raise
        self.frames.pop()
        self.stack.pop()
        self.line = line
        self.close_scope(mark)
        if alldead:
            self.scopes[-1].dead = 'raise'
        return val

    def instantiate(self, cls, args, kwargs):
        if cls.qual in self.opaque:
            return mk('app', self.opaque[cls.qual], *self.argterms(args, kwargs))
        ext_base = [b for b in cls.bases if self.prog.base_class(cls, b) is None
                    and not (isinstance(b, ast.Name) and b.id == 'object')]
        if ext_base:
            return mk('app', 'new:' + cls.name, *self.argterms(args, kwargs))
        r = self.new('inst', mk('new', cls.name), cls=cls)
        m = self.prog.method(cls, '__init__')
        if m:
            self.inline(Fn(m, None, r), args, kwargs)
        return r

    def record(self, rec, args, kwargs):
        vals = {}
        flat = []
        for a in args:
            if isinstance(a, Star):
                its = self.const_items(a.v)
                flat += its if its is not None else self.unpack(a.v, len(rec.fields) - len(flat))
            else:
                flat.append(a)
        for n, v in zip(rec.fields, flat):
            vals[n] = v
        for k, v in kwargs.items():
            vals[k] = v
        for n, d in rec.defaults.items():
            if n not in vals:
                vals[n] = self.eval_in(rec.module, d)
        if rec.defaults:
            r = self.new('inst', mk('new', rec.name), cls=rec)
            for n in rec.fields:
                self.attrs[(r, n)] = vals.get(n, NONE)
            return r
        return Tup([vals.get(n, NONE) for n in rec.fields], rec)

    # ------------------------------------------------------------ conditions
    def cond(self, node):
        if isinstance(node, ast.BoolOp):
            r = None
            pc = self.pc
            for x in node.values:
                c = self.cond(x)
                r = c if r is None else (mul(r, c) if isinstance(node.op, ast.And) else lor(r, c))
            return r
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return sub(ONE, self.cond(node.operand))
        return self.truth(self.eval(node))

    def truth(self, v):
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, (Fn, Cls, Rec, Mod, Ext, Bound)):
            return ONE
        if isinstance(v, Choice):
            return total(*[mul(g, self.truth(x)) for g, x in v.alts])
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if o.kind == 'inst':
                return ONE
            if o.kind in ('list', 'dict'):
                its = self.const_items(v)
                if its is not None:
                    return ONE if its else ZERO
                return truth(self.length(v)) if o.kind == 'list' else truth(mk('len', self.termof(v)))
        t = self.termof(v)
        if t.op in ('inst', 'lam', 'ref'):
            return ONE
        if t.op == 'st':
            return truth(t.args[0])
        if t in extern.NOTNONE:
            return ONE
        if t.op == 'poly' and any(a is NONE for m, c in pitems(t) for a, e in m):
            cs = cases(t)
            if cs and len(cs) > 1:
                return simp_facts(total(*[mul(g, self.truth(y)) for g, y in cs]), self.facts)
        return simp_facts(truth(t), self.facts)

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__} at {self.loc()}')
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if v is Ellipsis:
            return mk('ellipsis')
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                return mk('sym', 'inf')
            return const(Fraction(repr(v)) if isinstance(v, float) else v)
        if isinstance(v, complex):
            return add(const(Fraction(repr(v.real))), mul(IMAG, const(Fraction(repr(v.imag)))))
        if isinstance(v, (str, bytes)):
            return mk('str', v)
        raise Unsupported('constant')

    def e_Name(self, n):
        return self.load(n.id)

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                its = self.const_items(v)
                if its is None:
                    raise Unsupported('starred element')
                out += its
            else:
                out.append(self.eval(e))
        return Tup(out)

    def list_of(self, items):
        r = self.new('list', mk('list'))
        for x in items:
            o = self.heap[r.id]
            o.log.append(Entry([], ONE, 'app', (), x, self.loc()))
        return r

    def e_List(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                its = self.const_items(v)
                if its is None:
                    r = self.list_of(out)
                    self.extend(r, v)
                    if e is not n.elts[-1]:
                        raise Unsupported('starred element')
                    return r
                out += its
            else:
                out.append(self.eval(e))
        return self.list_of(out)

    def extend(self, ref, v):
        o = self.heap[ref.id] if isinstance(ref, Ref) else None
        if o is None:
            raise Unsupported('extend')
        if isinstance(v, Ref) and v == ref:
            raise Unsupported('self extend')
        self.for_each(v, lambda e, i: self.log(o, 'app', (), e), set())

    def e_Set(self, n):
        return mk('set', *sorted([self.termof(self.eval(e)) for e in n.elts], key=lambda t: t.dig))

    def e_Dict(self, n):
        r = self.new('dict', mk('dict'))
        o = self.heap[r.id]
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('dict unpack')
            kt = self.termof(self.eval(k))
            o.log.append(Entry([], ONE, '=', dictkey(kt), self.eval(v), self.loc()))
        return r

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def e_Subscript(self, n):
        base = self.eval(n.value)
        idx = self.index_of(n.slice)
        return self.getitem(base, self.whole(base, idx))

    def index_of(self, s):
        if isinstance(s, ast.Tuple):
            r = tuple(self.idx1(x) for x in s.elts)
            while len(r) > 1 and r[-1] is FULLSLICE and not all(x is FULLSLICE or x.op == 'ellipsis' for x in r):
                r = r[:-1]
            return untuple(r)
        v = self.idx1(s, raw=True)
        return dictkey(v if isinstance(v, Term) else self.termof(v))

    def whole(self, base, idx):
        """`...` spelt out where the number of axes is known"""
        k = [n for n, x in enumerate(idx) if isinstance(x, Term) and x.op == 'ellipsis']
        if len(k) != 1 or len(idx) < 2 or not isinstance(base, Ref):
            return idx
        o = self.heap[base.id]
        b = o.base if isinstance(getattr(o, 'base', None), Term) else None
        if b is None or b.op != 'full' or b.args[0].op != 'tup' or any(x.op in ('newaxis', 'star') for x in idx):
            return idx
        fill = len(b.args[0].args) - len(idx) + 1
        if fill < 0:
            return idx
        r = idx[:k[0]] + (FULLSLICE,) * fill + idx[k[0] + 1:]
        while len(r) > 1 and r[-1] is FULLSLICE:
            r = r[:-1]
        return r

    def idx1(self, s, raw=False):
        if isinstance(s, ast.Slice):
            def p(x):
                return NONE if x is None else self.termof(self.eval(x))
            lo, hi, st = p(s.lower), p(s.upper), p(s.step)
            if lo is ZERO:
                lo = NONE
            if st is ONE:
                st = NONE
            return mk('slice', lo, hi, st)
        v = self.eval(s)
        if v is NONE:
            return mk('newaxis')
        if isinstance(v, Ext) and v.name.endswith('newaxis'):
            return mk('newaxis')
        if isinstance(v, Tup) and raw:
            # x[idx_tuple]: numpy multi index or dict key
            return v
        return self.termof(v)

    def getitem(self, base, idx):
        if isinstance(base, Choice):
            alts = [(g, self.getitem(x, idx)) for g, x in base.alts]
            r = alts[-1][1]
            for g, x in reversed(alts[:-1]):
                r = self.merge_val(g, x, r)
            return r
        if isinstance(base, Iter):
            base = self.materialise(base)
        its = None
        if isinstance(base, (Tup,)) or isinstance(base, Ref) and self.heap[base.id].kind == 'list':
            its = self.const_items(base)
            if its is None and len(idx) == 1:
                x = self.early_item(base, const_value(idx[0]))
                if x is not None:
                    return x
        if its is not None and len(idx) == 1:
            i = idx[0]
            k = const_value(i)
            if k is not None and k.denominator == 1:
                if -len(its) <= k < len(its):
                    return its[int(k)]
                raise Unsupported('index out of range')
            if i.op == 'slice' and all(x is NONE or const_value(x) is not None for x in i.args):
                sl = slice(*[None if x is NONE else int(const_value(x)) for x in i.args])
                xs = its[sl]
                return Tup(xs) if isinstance(base, Tup) else self.list_of(xs)
            if i.op not in ('slice', 'newaxis', 'ellipsis') and not (
                    all(isinstance(x, Term) and const_value(x) is not None for x in its) and len(its) > 6):
                # selection by a symbolic position
                alts = []
                rest = ONE
                for q, x in enumerate(its):
                    g = simp_facts(eq(i, const(q)), self.facts)
                    alts.append((g, x))
                    rest = sub(rest, g)
                if isinstance(i, Term) and rest is not ZERO and self.selector_like(its):
                    pc = self.pc
                    self.pc = pc + (rest,)
                    self.log(self.raises, 'raise', (), mk('str', 'IndexError'))
                    self.pc = pc
                alts = [(g, x) for g, x in alts if g is not ZERO]
                if len(alts) == 1:
                    return alts[0][1]
                if self.selector_like(its):
                    r = alts[-1][1]
                    for g, x in reversed(alts[:-1]):
                        r = self.merge_val(g, x, r)
                    return r
        if isinstance(base, Rng):
            if len(idx) == 1 and not has_slice(idx):
                return add(base.lo, mul(base.step, idx[0]))
        if isinstance(base, Tup):
            return index(self.termof(base), idx)
        if isinstance(base, Sub):
            o = base.base
            full = compose(base.idx, idx)
            if isinstance(o, (Ref, Term)) and not (isinstance(o, Ref) and self.heap[o.id].kind in ('list', 'dict')):
                return Sub(self.rd(o, full), o, full)
            return Sub(index(base.term, idx), base, idx) if False else index(self.termof(base), idx)
        if isinstance(base, Ref):
            o = self.heap[base.id]
            if o.kind == 'inst':
                if isinstance(o.cls, Class):
                    m = self.prog.method(o.cls, '__getitem__')
                    if m:
                        return self.inline(Fn(m, None, base), [idx[0] if len(idx) == 1 else Tup(idx)], {})
                return index(self.termof(base), idx)
            if o.kind == 'dict':
                for e in reversed(o.log):
                    if e.op == '=' and not e.binders and e.guard is ONE and e.idx == idx and not isinstance(e.val, Term):
                        return e.val
                    break
            return Sub(self.read(base, idx), base, idx)
        if isinstance(base, Term):
            c = self.selfcls.get(base)
            if c is not None:
                m = self.prog.method(c, '__getitem__')
                if m:
                    return self.inline(Fn(m, None, base), [idx[0] if len(idx) == 1 else Tup(idx)], {})
            return Sub(self.rd(base, idx), base, idx)
        if isinstance(base, Bound):
            return index(self.termof(base), idx)
        raise Unsupported(f'subscript of {type(base).__name__}')

    def selector_like(self, its):
        return any(isinstance(x, (Fn, Cls, Ext, Bound, Rec)) for x in its)

    def rd(self, base, idx):
        if isinstance(base, Ref):
            return self.read(base, idx)
        r = self.extmap.get(base)
        if r is not None and self.heap[r.id].log:
            return self.read(r, idx)
        return index(self._ver(base, base), idx)

    def e_Starred(self, n):
        return Star(self.eval(n.value))

    def e_Lambda(self, n):
        fr = self.frames[-1]
        return Fn(Func(fr.module, n, name='<lambda>'), [fr.env] + (fr.parent or []))

    def e_IfExp(self, n):
        c = self.cond(n.test)
        if c is ONE:
            return self.eval(n.body)
        if c is ZERO:
            return self.eval(n.orelse)
        box = {}

        def f1():
            box['a'] = self.eval(n.body)

        def f2():
            box['b'] = self.eval(n.orelse)
        self.branch(c, f1, f2)
        if 'a' not in box:
            return box['b']
        if 'b' not in box:
            return box['a']
        return self.merge_val(c, box['a'], box['b'])

    def e_BoolOp(self, n):
        r = self.eval(n.values[0])
        for x in n.values[1:]:
            c = self.truth(r)
            v = self.eval(x)
            tr = self.termof(r) if isinstance(r, (Term, Sub)) else None
            if tr is not None and is_bool(tr) and isinstance(v, (Term, Sub)) and is_bool(self.termof(v)):
                t = self.termof(v)
                r = mul(tr, t) if isinstance(n.op, ast.And) else lor(tr, t)
            elif isinstance(n.op, ast.And):
                r = v if c is ONE else r if c is ZERO else self.merge_val(c, v, r)
            else:
                r = r if c is ONE else v if c is ZERO else self.merge_val(c, r, v)
        return r

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return sub(ONE, self.truth(v))
        t = self.termof(v)
        if isinstance(n.op, ast.USub):
            return neg(t)
        if isinstance(n.op, ast.UAdd):
            return t
        if is_bool(t):
            return sub(ONE, t)
        return mk('app', 'invert', t) if not is_int(t) else sub(neg(t), ONE)

    def e_BinOp(self, n):
        a, b = self.eval(n.left), self.eval(n.right)
        if not isinstance(n.op, ast.MatMult):
            if isinstance(n.left, ast.Subscript) and not isinstance(n.right, ast.Constant):
                a = unrow(a)
            if isinstance(n.right, ast.Subscript) and not isinstance(n.left, ast.Constant):
                b = unrow(b)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        # list arithmetic
        if op in ('Add', 'Mult') and (isinstance(a, Tup) or isinstance(b, Tup) or
                                      isinstance(a, Ref) and self.heap[a.id].kind == 'list' or
                                      isinstance(b, Ref) and self.heap[b.id].kind == 'list'):
            ia, ib = self.const_items(a), self.const_items(b)
            if op == 'Add' and (isinstance(a, Tup) and isinstance(b, Tup)):
                return Tup(a.items + b.items)
            if op == 'Add' and isinstance(a, Ref) and isinstance(b, (Ref, Tup, Iter)):
                r = self.new('list', mk('list'))
                self.extend(r, a)
                self.extend(r, b)
                return r
            if op == 'Mult':
                for x, y, z in ((ia, b, a), (ib, a, b)):
                    if x is not None:
                        k = const_value(self.termof(y))
                        if k is not None and 0 <= k <= 16:
                            return Tup(x * int(k)) if isinstance(z, Tup) else self.list_of(x * int(k))
                        return mk('app', 'repeat', self.termof(z), self.termof(y))
        if op == 'Mod' and isinstance(a, Term) and a.op == 'str':
            return mk('app', 'fmt')
        x, y = self.termof(a), self.termof(b)
        return binop(op, x, y)

    def e_Compare(self, n):
        left = self.eval(n.left)
        r = ONE
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            r = mul(r, self.compare(type(op).__name__, left, right))
            left = right
        return simp_facts(r, self.facts)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b)
            return r if op == 'Is' else sub(ONE, r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if op == 'In' else sub(ONE, r)
        if op in ('Eq', 'NotEq') and not (isinstance(a, (Term, Sub)) and isinstance(b, (Term, Sub))):
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    r = ZERO
                else:
                    r = ONE
                    for x, y in zip(a.items, b.items):
                        r = mul(r, self.compare('Eq', x, y))
                return r if op == 'Eq' else sub(ONE, r)
            if isinstance(a, (Fn, Cls, Ext)) or isinstance(b, (Fn, Cls, Ext)):
                r = self.is_same(a, b)
                return r if op == 'Eq' else sub(ONE, r)
        x, y = self.termof(a), self.termof(b)
        if op in ('Eq', 'NotEq'):
            if x.op == 'tup' and y.op == 'tup' and len(x.args) == len(y.args):
                r = ONE
                for p, q in zip(x.args, y.args):
                    r = mul(r, eq(p, q))
            else:
                r = eq(x, y)
            return r if op == 'Eq' else sub(ONE, r)
        if op == 'Lt':
            return lt(x, y)
        if op == 'Gt':
            return lt(y, x)
        if op == 'LtE':
            return le(x, y)
        if op == 'GtE':
            return le(y, x)
        raise Unsupported(op)

    def is_same(self, a, b):
        if isinstance(a, Choice):
            return total(*[mul(g, self.is_same(x, b)) for g, x in a.alts])
        if isinstance(b, Choice):
            return total(*[mul(g, self.is_same(a, x)) for g, x in b.alts])
        if isinstance(a, Sub):
            a = self.termof(a)
        if isinstance(b, Sub):
            b = self.termof(b)
        if a is NONE or b is NONE:
            x = b if a is NONE else a
            if x is NONE:
                return ONE
            if not isinstance(x, Term):
                return ZERO
            if x.op in ('full', 'arr', 'tab', 'list', 'tup', 'inst', 'nt', 'str', 'lam') or const_value(x) is not None:
                return ZERO
            if x.op == 'poly':
                cs = cases(x)
                if cs:
                    return total(*[mul(g, self.is_same(y, NONE)) for g, y in cs]) if len(cs) > 1 else ZERO
                return ZERO
            if x.op == 'st':
                return self.is_same(x.args[0], NONE)
            if x in extern.NOTNONE:
                return ZERO
            return mk('isnone', x)
        if isinstance(a, (Fn, Cls, Ext, Mod, Rec)) and isinstance(b, (Fn, Cls, Ext, Mod, Rec)):
            if isinstance(a, Fn) and isinstance(b, Fn):
                return ONE if a.func.node is b.func.node and a.selfv is b.selfv else ZERO
            return ONE if self.termof(a) is self.termof(b) else ZERO
        if isinstance(a, Ref) and isinstance(b, Ref):
            return ONE if a == b else ZERO
        x, y = self.identity(a), self.identity(b)
        if x is y:
            return ONE
        if is_bool(x) and is_bool(y):
            return eq(x, y)
        a1, a2 = sorted((x, y), key=lambda t: t.dig)
        return mk('same', a1, a2)

    def identity(self, v):
        """term that stands for the object itself: a function of a module is its name, not its body"""
        if isinstance(v, Fn) and v.selfv is None and isinstance(v.func, Func):
            q = self.qual(v.func)
            if self.prog.find(q) is not None:
                return mk('ref', self.opaque.get(q, q))
        return self.termof(v)

    def contains(self, a, b):
        its = self.const_items(b)
        if its is not None and len(its) <= 8:
            r = ZERO
            for x in its:
                r = lor(r, self.compare('Eq', a, x))
            return r
        if isinstance(b, Rng) and b.step is ONE:
            x = self.termof(a)
            return mul(le(b.lo, x), lt(x, add(b.lo, b.n)))
        if isinstance(b, Bound) and b.name in ('keys',):
            b = b.recv
        if isinstance(b, Iter) and b.kind == 'keys':
            b = b.ops[0]
        return mk('in', self.termof(a), self.termof(b))

    def e_Call(self, n):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == 'super' and not n.args:
            return Ext('super')
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                and fn.value.func.id == 'super':
            return self.super_call(fn.attr, n)
        if isinstance(fn, ast.Name) and fn.id == 'print' or is_message(fn):
            return NONE
        f = self.eval(fn)
        if isinstance(f, Ext) and extern.canon(f.name) in extern.IGNORED:
            return NONE
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                its = self.const_items(v)
                if its is not None:
                    args += its
                else:
                    args.append(Star(v))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                kwargs['**'] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        if kwargs.get('**') is not None:
            v = kwargs['**']
            if isinstance(v, Ref) and self.heap[v.id].kind == 'dict' and all(
                    e.op == '=' and not e.binders and e.guard is ONE and e.idx[0].op == 'str' for e in self.heap[v.id].log):
                kwargs.pop('**')
                for e in self.heap[v.id].log:
                    kwargs[e.idx[0].args[0]] = e.val
        self.line = n.lineno
        r = self.call(f, args, kwargs)
        if self.dead:
            return r if r is not None else NONE
        return r

    def super_call(self, name, n):
        fr = self.frames[-1]
        func = fr.func
        while func is not None and func.cls is None:
            break
        args = [self.eval(a) for a in n.args]
        kwargs = {k.arg: self.eval(k.value) for k in n.keywords}
        selfname = func.node.args.args[0].arg
        sv = self.load(selfname)
        for b in func.cls.bases:
            c = self.prog.base_class(func.cls, b)
            if c:
                m = self.prog.method(c, name)
                if m:
                    return self.inline(Fn(m, None, sv), args, kwargs)
        t = mk('call', mk('attr', mk('super', self.termof(sv)), name), *self.argterms(args, kwargs))
        self.log(self.calls, 'call', (), t)
        return t

    def e_JoinedStr(self, n):
        return mk('app', 'fmt')

    def e_FormattedValue(self, n):
        return mk('app', 'fmt')

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Slice(self, n):
        return self.idx1(n)

    # ---- comprehensions
    def comp(self, gens, emit):
        fr = self.frames[-1]
        names = set()
        for g in gens:
            names |= assigned([g.target])
        saved = {k: fr.env.get(k) for k in names}
        for k in names:
            fr.env.pop(k, None)

        def level(k):
            if k == len(gens):
                return emit()
            g = gens[k]
            it = self.eval(g.iter)

            def body(e, i):
                self.assign(g.target, e)
                c = ONE
                if g.ifs:
                    for x in g.ifs:
                        c = mul(c, self.cond(x))
                    self.branch(c, lambda: level(k + 1), lambda: None)
                else:
                    level(k + 1)
            self.for_each(it, body, set())
        level(0)
        for k, v in saved.items():
            if v is not None:
                fr.env[k] = v
            else:
                fr.env.pop(k, None)

    def e_ListComp(self, n):
        r = self.new('list', mk('list'))
        o = self.heap[r.id]
        self.comp(n.generators, lambda: self.log(o, 'app', (), self.eval(n.elt)))
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        r = self.e_ListComp(n)
        return mk('app', 'set', self.termof(r))

    def e_DictComp(self, n):
        r = self.new('dict', mk('dict'))
        o = self.heap[r.id]

        def emit():
            k = self.termof(self.eval(n.key))
            self.log(o, '=', dictkey(k), self.eval(n.value))
        self.comp(n.generators, emit)
        return r


def dictkey(k):
    """d[(a, b)] and d[a, b] are one subscript"""
    return untuple(k.args) if k.op == 'tup' and k.args else (k,)


class Star:
    def __init__(self, v):
        self.v = v


class Rebound(Exception):
    def __init__(self, key):
        super().__init__(f'loop-carried container {key}')
        self.key = key


# ---------------------------------------------------------------- helpers
def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.func.node is b.func.node and same_value(a.selfv, b.selfv) if a.selfv is not None or b.selfv is not None \
            else a.func.node is b.func.node
    if isinstance(a, Cls) and isinstance(b, Cls):
        return a.cls is b.cls
    if isinstance(a, (Ext, Mod)) and type(a) is type(b):
        return a.name == b.name
    if isinstance(a, Sub) and isinstance(b, Sub):
        return a.term is b.term
    return False


def binop(op, x, y):
    if op == 'Add':
        return add(x, y)
    if op == 'Sub':
        return sub(x, y)
    if op == 'Mult':
        return mul(x, y)
    if op == 'Div':
        return div(x, y)
    if op == 'Pow':
        v = const_value(y)
        if v is not None and v.denominator == 1:
            return powi(x, int(v))
        if v == Fraction(1, 2):
            return extern.sqrt(x)
        if const_value(x) == 2 and is_int(y):
            return shl(ONE, y)
        if const_value(x) == -1:
            return sgn(y)
        return mk('app', 'power', x, y)
    if op == 'FloorDiv':
        return floordiv(x, y)
    if op == 'Mod':
        return mod(x, y)
    if op == 'LShift':
        return shl(x, y)
    if op == 'RShift':
        return shr(x, y)
    if op == 'BitAnd':
        return band(x, y)
    if op == 'BitOr':
        return bor(x, y)
    if op == 'BitXor':
        return bxor(x, y)
    if op == 'MatMult':
        return extern.bilinear('dot', x, y)
    raise Unsupported(op)


DICTS = set()      # names the analysed programs use as mappings


def dict_names(prog):
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('items', 'keys', 'values'):
                v = n.func.value
                DICTS.add(v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else '')


FULLSLICE = mk('slice', NONE, NONE, NONE)


def abstract(f):
    """a method that only says that subclasses provide it"""
    if not isinstance(f.node, ast.FunctionDef):
        return False
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Raise) and b[0].exc is not None and 'NotImplemented' in ast.unparse(b[0].exc)


def places(t):
    """the objects a value chosen by conditions can be: [(condition, object)] or None for a computed value"""
    parts = {}
    for m, c in pitems(t):
        obj, g = None, []
        for a, e in m:
            if is_bool_atom(a):
                g.append((a, e))
            elif a.op in ('sym', 'attr', 'index') and e == 1 and obj is None:
                obj = a
            else:
                return None
        if obj is None:
            return None
        parts.setdefault(obj, {})[tuple(g)] = c
    out = []
    for o, d in parts.items():
        g = mkpoly(d)
        if not is_bool(g):
            return None
        out.append((g, o))
    return out if len(out) > 1 else None


def new_result(t):
    """a decomposition returned by numpy, what a function given as an argument returned: nobody else holds it"""
    while t.op == 'index':
        t = t.args[0]
    return t.op == 'app' and t.args[0].startswith('linalg.') or t.op == 'call' and t.args[0].op == 'sym'


def unrow(v):
    """a leading new axis broadcasts as no axis at all"""
    t = v.term if isinstance(v, Sub) else v
    if isinstance(t, Term) and t.op == 'index' and t.args[1][0].op == 'newaxis' and all(
            x.op == 'slice' and all(z is NONE for z in x.args) for x in t.args[1][1:]):
        return t.args[0]
    return v


def length(t):
    if t.op == 'tup':
        return const(len(t.args))
    if t.op in ('full', 'addfill') and t.args[0].op == 'tup' and t.args[0].args:
        return t.args[0].args[0]
    if t.op == 'tab':
        sh = shape_of(t)
        if sh.op == 'tup':
            return sh.args[0]
    if t.op == 'arr':
        return length(t.args[0])
    if t.op == 'list':
        if all(s.op in ('it', 'stream') and (s.op == 'it' or len(s.args[1]) == 3) for s in t.args):
            r = ZERO
            for s in t.args:
                if s.op == 'it':
                    r = add(r, ONE)
                else:
                    vs, p = open_(s.args[2], s.args[0], s.args[1])
                    r = add(r, sum_over(list(zip(vs, p[0])), p[1]))
            return r
    if t.op == 'index' and t.args[1][0].op == 'slice' and t.args[1][0].args[2] is NONE and t.args[0].op != 'str':
        lo, hi, st = t.args[1][0].args
        if all(z is NONE or const_value(z) is None or const_value(z) >= 0 for z in (lo, hi)):
            return sub(length(t.args[0]) if hi is NONE else hi, ZERO if lo is NONE else lo)
    return mk('len', t)


LENGTH.append(length)
REBUILD['len'] = lambda t, f: length(f(t.args[0]))


def strip_guard(g, c):
    """g = c*h  ->  h when c is a single boolean atom or its negation"""
    if c is ONE:
        return g
    if is_bool_atom(c):
        return assume(g, c, True)
    n = sub(ONE, c)
    if is_bool_atom(n):
        return assume(g, n, False)
    return g


def common(pc):
    return pc


def assume(t, atom, val):
    return subst_atoms(t, {atom: ONE if val else ZERO})


def subst_atoms(t, mp):
    r = ZERO
    for m, c in pitems(t):
        x = const(c)
        for a, e in m:
            x = mul(x, mp[a] if a in mp else (powi(a, e) if a.op != 'par' else mkpoly({((a, e),): Fraction(1)})))
        r = add(r, x)
    return r


def exists_over(binders, g):
    if g is ZERO:
        return ZERO
    vs = [v for v, d in binders]
    if not any(v in g.fv for v in vs) and len(binders) == 1:
        lo, hi = binders[0][1]
        return mul(g, lt(lo, hi))
    its = pitems(g)
    # factors that do not depend on the binders
    if len(its) == 1 and its[0][1] == 1:
        m = its[0][0]
        allb = set(vs)
        out = [(a, e) for a, e in m if not (a.fv & allb)]
        ins = [(a, e) for a, e in m if a.fv & allb]
        if out and ins:
            return mul(mkpoly({tuple(out): Fraction(1)}),
                       exists_over(binders, mkpoly({tuple(ins): Fraction(1)})))
    base, parts = canon_binders(binders, (g,))
    return mk('exists', tuple(True for _ in binders), parts, base)


def trip_count(c, t):
    """number of iterations of  while c(t)"""
    if c is ONE:
        return mk('sym', 'inf')
    if c is ZERO:
        return ZERO
    if t not in c.fv:
        return mul(c, mk('sym', 'inf'))
    if c.op == 'lt':
        l = lin(c.args[0], t)
        if l and l[0] == 1:
            return neg(l[1])
    n = sub(ONE, c)
    if n.op == 'lt':
        l = lin(n.args[0], t)
        if l and l[0] == -1:
            return add(l[1], ONE)
    if n.op == 'eq':
        l = lin(n.args[0], t)
        if l and l[0] == 1:
            return neg(l[1])
        if l and l[0] == -1:
            return l[1]
    ats = [m[0][0] for m, k in pitems(n) if k == 1 and len(m) == 1 and m[0][1] == 1]
    if len(ats) == 2 == len(pitems(n)) and {a.op for a in ats} == {'lt', 'eq'} and ats[0].args[0] is ats[1].args[0]:
        l = lin(ats[0].args[0], t)
        if l and l[0] == -1:
            return l[1]
    return bind('tripcount', [t], (c,))


def simp_deep(t, facts):
    return simp_facts(t, facts)


def solve(system, t, facts):
    """system: key -> (phi, init, next).  Returns (solution phi->term in t, key -> N -> final)"""
    sol = {}
    fin = {}
    rest = dict(system)
    phis = {ph: k for k, (ph, i, n) in system.items()}
    # strongly connected order
    deps = {k: {phis[v] for v in nx.fv if v in phis} for k, (ph, i, nx) in rest.items()}
    done = set()
    while rest:
        ready = [k for k in rest if deps[k] <= done | {k}]
        if ready:
            for k in sorted(ready, key=str):
                ph, init, nx = rest.pop(k)
                nx = simp_facts(subst(nx, sol), facts)
                s, f = solve_one(ph, init, nx, t)
                sol[ph] = s
                fin[k] = f
                done.add(k)
            continue
        # smallest closed group
        best = None
        for k in rest:
            grp, st = set(), [k]
            while st:
                x = st.pop()
                if x in grp or x in done:
                    continue
                grp.add(x)
                st.extend(deps[x] - done)
            if best is None or len(grp) < len(best):
                best = grp
        grp = best
        body = {k: subst(rest[k][2], sol) for k in grp}
        colour = {k: 11 for k in grp}
        for _ in range(3):
            new = {}
            for k in grp:
                env = {rest[q][0]: hash((13, colour[q])) for q in grp}
                env[rest[k][0]] = 17
                env[t] = 19
                new[k] = hash((shash(rest[k][1], env), shash(body[k], env)))
            colour = new
        order = sorted(grp, key=lambda k: (colour[k], str(k[0])))
        ps = [rest[k][0] for k in order]
        inits = tuple(rest[k][1] for k in order)
        nexts = tuple(simp_facts(subst(rest[k][2], sol), facts) for k in order)
        R = bind('rec', ps + [t], (inits, nexts))
        for j, k in enumerate(order):
            isint = rest[k][0].args[2]
            sol[rest[k][0]] = mk('recval', R, const(j), t, 'int' if isint else '')
            fin[k] = (lambda N, j=j, isint=isint: mk('recval', R, const(j), N, 'int' if isint else ''))
            done.add(k)
        for k in order:
            rest.pop(k)
    # solutions may mention other phis solved later in the same pass
    for _ in range(3):
        ch = False
        for p in list(sol):
            if any(v in sol and v is not p for v in sol[p].fv):
                sol[p] = subst(sol[p], {q: s for q, s in sol.items() if q is not p})
                ch = True
        if not ch:
            break
    return sol, fin


def solve_one(ph, init, nx, t):
    if nx is ph:
        return init, lambda N: init
    if ph not in nx.fv:
        if nx is init:
            return init, lambda N: init
        prev = subst(nx, {t: sub(t, ONE)})
        if prev is init:
            return init, lambda N: subst(nx, {t: sub(N, ONE)})
        # closed form t+c with matching start
        if subst(nx, {t: const(-1)}) is init:
            return prev, lambda N: subst(nx, {t: sub(N, ONE)})
        pos = lt(ZERO, t)
        return ite(pos, prev, init), lambda N: ite(lt(ZERO, N), subst(nx, {t: sub(N, ONE)}), init)
    d = sub(nx, ph)
    if ph not in d.fv:
        u = fresh('u')
        du = subst(d, {t: u})
        u2 = fresh('u')
        du2 = subst(d, {t: u2})
        return (add(init, sum_over([(u, (ZERO, t))], du)),
                lambda N: add(init, sum_over([(u2, (ZERO, N))], du2)))
    z = pdict(nx)
    if all((ph, 1) in m for m in z):
        q = mkpoly({tuple(x for x in m if x != (ph, 1)): c for m, c in z.items()})
        if ph not in q.fv:
            u = fresh('u')
            qq = subst(q, {t: u})
            return (mul(init, prod_over(u, ZERO, t, qq)), lambda N: mul(init, prod_over(u, ZERO, N, qq)))
    R = bind('rec', [ph, t], ((init,), (nx,)))
    isint = ph.args[2]
    return (mk('recval', R, ZERO, t, 'int' if isint else ''),
            lambda N: mk('recval', R, ZERO, N, 'int' if isint else ''))


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in walk_local(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
    return out


def assigned_expr(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def walk_local(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_local(c)


def has_break(stmts):
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Break, ast.Return)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            # breaks inside belong to the inner loop, returns do not
            if any(isinstance(x, ast.Return) for x in ast.walk(n)):
                return True
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    for s in node.body:
        for n in walk_local(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def is_message(fn):
    return isinstance(fn, ast.Name) and fn.id in ('warn',) or \
        isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
        (fn.value.id, fn.attr) in (('warnings', 'warn'), ('sys', 'exit_'), ('logging', 'info'), ('logging', 'debug'),
                                   ('logging', 'warning'), ('logger', 'info'), ('logger', 'debug'), ('logger', 'warning'))
