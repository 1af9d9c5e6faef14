"""Which parameters of a function may be changed in place (alias analysis over
the syntax tree, interprocedural through package functions).

An abstract value is the set of objects of the caller it may share storage
with: ('p', k, d) parameter k, ('s', name, d) an attribute of self, ('g', qual, d)
a module variable; d counts how many containers built here still wrap it.  Statements are walked in order with strong updates of local
names, branches are joined and loops walked twice.
"""
import ast
from . import extern
from .extern import PURE_METHODS, MUTATORS

# numpy / builtin calls whose result may share storage with an argument
VIEWS = {'asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'ravel', 'reshape', 'transpose', 'squeeze',
         'atleast_1d', 'atleast_2d', 'diagonal', 'broadcast_to', 'swapaxes', 'iter', 'next', 'reversed', 'enumerate',
         'zip', 'list', 'tuple', 'sorted', 'dict', 'filter', 'require', 'as_strided', 'nditer', 'chain', 'product',
         'frombuffer', 'asfarray', 'moveaxis', 'set', 'max', 'min', 'getattr', 'vars', 'islice', 'groupby'}
VIEW_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'items', 'values', 'keys', 'get', 'diagonal',
                'setdefault', 'pop', 'popitem'}
VIEW_ATTRS_SKIP = {'size', 'shape', 'ndim', 'dtype', 'nnz', 'name', 'itemsize', 'nbytes'}
COMM = {'Allreduce', 'Bcast', 'Reduce', 'Allgather', 'Alltoall', 'Alltoallv', 'Allgatherv', 'Gather', 'Gatherv', 'Scatter',
        'Scatterv', 'Send', 'Recv', 'Sendrecv', 'Barrier', 'allreduce', 'bcast', 'reduce', 'allgather', 'alltoall', 'gather',
        'scatter', 'send', 'recv', 'barrier', 'Ireduce', 'Iallreduce', 'Ibcast', 'Isend', 'Irecv', 'Reduce_scatter'}
RECV = {'Allreduce': 1, 'Reduce': 1, 'Allgather': 1, 'Alltoall': 1, 'Gather': 1, 'Scatter': 1, 'Bcast': 0, 'Recv': 0,
        'Alltoallv': 1, 'Allgatherv': 1, 'Gatherv': 1, 'Scatterv': 1, 'Sendrecv': 1}
NP_MUT = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0}
FRESH_CALLS = None


def static(f):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(f.node, 'decorator_list', ()))


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def of(self, f):
        """{'writes': {k: [(file, line, text)]}, 'self': {attr: [...]}, 'globals':..., 'calls': bool, 'ret': roots}"""
        key = f.qual
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {'writes': {}, 'self': {}, 'globals': {}, 'calls': False, 'ret': frozenset(), 'deep': {},
                          'poked': set()}
        for _ in range(2):       # recursion: second pass with the first result
            w = Walk(self, f)
            w.run()
            self.memo[key] = w.result()
            if not w.recursive:
                break
        return self.memo[key]

    def simple(self, f):
        e = self.of(f)
        return {'writes': sorted(k for k in e['writes'] if k >= 0), 'calls': e['calls'] or bool(e['globals']),
                'pokes': sorted(e['poked'])}


class Walk:
    def __init__(self, eff, f):
        self.eff, self.f = eff, f
        self.prog = eff.prog
        self.mod = f.module
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.extra = ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        self.env = {p: frozenset([('p', k, 0)]) for k, p in enumerate(self.params)}
        for p in self.extra:
            self.env[p] = frozenset([('x', p, 0)])
        if a.vararg:
            self.env[a.vararg.arg] = frozenset([('x', a.vararg.arg, 1)])
        self.writes, self.selfw, self.glob = {}, {}, {}
        self.calls = False
        self.poked = set()        # parameters whose own methods (of a class not known here) are called
        self.ret = frozenset()
        self.recursive = False
        self.closures = {}
        self.direct = set(self.params)

    def run(self):
        n = self.f.node
        if isinstance(n, ast.Lambda):
            self.ret = self.ev(n.body)
            return
        self.block(n.body)

    def result(self):
        return {'writes': self.writes, 'self': self.selfw, 'globals': self.glob, 'calls': self.calls, 'ret': self.ret,
                'poked': self.poked}

    # -------------------------------------------------------------- marking
    def hit(self, roots, node, how):
        site = (self.mod.path, getattr(node, 'lineno', 0), how)
        for r in roots:
            if r[2]:
                continue
            if r[0] == 'p':
                k = r[1]
                self.writes.setdefault(k, [])
                if site not in self.writes[k]:
                    self.writes[k].append(site)
            elif r[0] == 's':
                self.selfw.setdefault(r[1], []).append(site)
            elif r[0] == 'g':
                self.glob.setdefault(r[1], []).append(site)
            elif r[0] == 'x':
                self.writes.setdefault(-1, []).append(site)

    # ------------------------------------------------------------ statements
    def block(self, ss):
        for s in ss:
            self.st(s)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, frozenset()) | v
        return out

    def st(self, s):
        t = type(s).__name__
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for tg in s.targets:
                self.assign(tg, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            if isinstance(s.target, ast.Name):
                r = self.env.get(s.target.id, frozenset())
                # in place for arrays and lists; numbers are rebound
                if self.arrayish(s.target.id):
                    self.hit(r, s, f'{s.target.id} {OPN.get(type(s.op), "?")}=')
            else:
                r = self.ev(s.target.value)
                self.hit(r, s, f'{ast.unparse(s.target)} {OPN.get(type(s.op), "?")}=')
                if isinstance(s.target, ast.Attribute):
                    pass
        elif isinstance(s, (ast.If,)):
            self.ev(s.test)
            e0, d0 = dict(self.env), set(self.direct)
            self.block(s.body)
            e1, d1 = self.env, self.direct
            self.env, self.direct = dict(e0), d0
            self.block(s.orelse)
            if s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                pass
            elif s.orelse and isinstance(s.orelse[-1], (ast.Return, ast.Raise)):
                self.direct = d1
            else:
                self.direct = self.direct & d1
            self.env = self.join(e1, self.env)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                e0 = dict(self.env)
                self.loop_bind(s.target, s.iter, it)
                self.block(s.body)
                self.env = self.join(e0, self.env)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                e0 = dict(self.env)
                self.ev(s.test)
                self.block(s.body)
                self.env = self.join(e0, self.env)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            e1 = dict(self.env)
            for h in s.handlers:
                self.env = self.join(e0, e1)
                self.block(h.body)
                e1 = self.join(e1, self.env)
            self.env = e1
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = self.ret | self.ev(s.value)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.closure(s)
        elif isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, (ast.Subscript, ast.Attribute)):
                    self.hit(self.ev(tg.value), s, 'del ' + ast.unparse(tg))
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)

    def closure(self, s):
        """nested function: its writes through captured names happen when it is called; assume it is"""
        e0 = dict(self.env)
        a = s.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = frozenset()
        ret0 = self.ret
        self.ret = frozenset()
        if isinstance(s, ast.Lambda):
            self.ev(s.body)
        else:
            self.block(s.body)
            e0[s.name] = frozenset()
        self.closures[getattr(s, 'name', None)] = self.ret
        self.ret = ret0
        self.env = e0

    def arrayish(self, name):
        """an augmented assignment of a bare name changes the caller's object unless it is a number; numbers are
        recognised by how the function uses the name"""
        a = self.f.node.args
        ps = a.posonlyargs + a.args
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p.arg == name and isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)):
                return False
        is_n = lambda x: isinstance(x, ast.Name) and x.id == name
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and fname(n.func) in ('range', 'prange', 'arange', 'int', 'float', 'binom', 'bin'):
                if any(is_n(x) for x in n.args):
                    return False
            if isinstance(n, ast.Subscript) and is_n(n.slice):
                return False
            if isinstance(n, ast.Slice) and any(is_n(x) for x in (n.lower, n.upper, n.step)):
                return False
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)) and (is_n(n.left) or is_n(n.right)):
                return False
            if isinstance(n, ast.While) and any(is_n(x) for x in ast.walk(n.test)):
                return False
        return True

    def loop_bind(self, tg, it_node, roots):
        if isinstance(it_node, ast.Call):
            nm = fname(it_node.func)
            if nm in ('zip', 'product') and isinstance(tg, (ast.Tuple, ast.List)) and len(tg.elts) == len(it_node.args):
                for e, a in zip(tg.elts, it_node.args):
                    if isinstance(a, ast.Starred):
                        self.assign(e, roots, None)
                    else:
                        self.loop_bind(e, a, self.ev(a))
                return
            if nm == 'enumerate' and isinstance(tg, (ast.Tuple, ast.List)) and len(tg.elts) == 2:
                self.assign(tg.elts[0], frozenset(), None)
                self.loop_bind(tg.elts[1], it_node.args[0], self.ev(it_node.args[0]))
                return
            if nm in ('range', 'prange', 'arange', 'keys'):
                self.assign(tg, frozenset(), None)
                return
            if nm == 'items' and isinstance(tg, (ast.Tuple, ast.List)) and len(tg.elts) == 2:
                self.assign(tg.elts[0], frozenset(), None)
                self.assign(tg.elts[1], down(roots), None)
                return
        self.assign(tg, down(roots), None)

    def assign(self, tg, roots, value):
        if isinstance(tg, ast.Name):
            self.env[tg.id] = roots
            if isinstance(value, ast.Name) and value.id in self.direct:
                self.direct.add(tg.id)
            else:
                self.direct.discard(tg.id)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = None
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tg.elts) and \
                    not any(isinstance(e, ast.Starred) for e in tg.elts + value.elts):
                vs = [self.ev(e) for e in value.elts]
                for e, v, x in zip(tg.elts, vs, value.elts):
                    self.assign(e, v, x)
                return
            for e in tg.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, roots if isinstance(e, ast.Starred) else down(roots), None)
        elif isinstance(tg, ast.Subscript):
            self.ev(tg.slice)
            self.hit(self.ev(tg.value), tg, ast.unparse(tg) + ' =')
            # the container now holds the value
            if isinstance(tg.value, ast.Name) and roots and value is not None and not isinstance(tg.slice, ast.Slice) \
                    and self.container(tg.value.id):
                self.env[tg.value.id] = self.env.get(tg.value.id, frozenset()) | up(roots)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value)
            if isinstance(tg.value, ast.Name) and self.f.cls is not None and not static(self.f) and self.params and tg.value.id == self.params[0]:
                self.env['self.' + tg.attr] = roots | frozenset([('s', tg.attr, 0)])
                return
            if tg.attr in ('shape', 'strides', 'dtype') and isinstance(tg.value, ast.Name) and tg.value.id not in self.direct:
                return          # the header of a view, not of the caller's array
            self.hit(b, tg, ast.unparse(tg) + ' =')

    def container(self, name):
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                if isinstance(n.value, (ast.Dict, ast.List, ast.DictComp, ast.ListComp)):
                    return True
                if isinstance(n.value, ast.Call) and fname(n.value.func) in ('dict', 'list', 'defaultdict', 'OrderedDict'):
                    return True
        return False

    # ----------------------------------------------------------- expressions
    def ev(self, e):
        E = frozenset()
        if e is None:
            return E
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            ent = self.mod.names.get(e.id)
            if ent is not None and ent[0] == 'assign':
                return frozenset([('g', f'{self.mod.name}.{e.id}', 0)]) if mutable_literal(ent[1]) else E
            return E
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and self.f.cls is not None and not static(self.f) and self.params and e.value.id == self.params[0]:
                k = 'self.' + e.attr
                return self.env.get(k, frozenset([('s', e.attr, 0)]))
            b = self.ev(e.value)
            return E if e.attr in VIEW_ATTRS_SKIP else b if e.attr in ('T', 'real', 'imag', 'flat') else down(b)
        if isinstance(e, ast.Subscript):
            self.ev(e.slice)
            return self.ev(e.value) if isinstance(e.slice, ast.Slice) else down(self.ev(e.value))
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x)
            return E
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            r = E
            for x in e.elts:
                r |= self.ev(x) if isinstance(x, ast.Starred) else up(self.ev(x))
            return r
        if isinstance(e, ast.Dict):
            r = E
            for k, v in zip(e.keys, e.values):
                self.ev(k)
                r |= up(self.ev(v)) if k is not None else self.ev(v)
            return r
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            r = E
            for x in e.values:
                r |= self.ev(x)
            return r
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e.value)
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e0 = dict(self.env)
            for g in e.generators:
                self.loop_bind(g.target, g.iter, self.ev(g.iter))
                for c in g.ifs:
                    self.ev(c)
            r = self.ev(e.value) if isinstance(e, ast.DictComp) else self.ev(e.elt)
            self.env = e0
            return up(r)
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Lambda):
            self.closure(e)
            return E
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.ret = self.ret | self.ev(e.value)
            return E
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return E

    def resolve(self, fn):
        """package function called by this expression, with bound self flag"""
        if isinstance(fn, ast.Name) and fn.id not in self.env:
            ent = self.mod.names.get(fn.id)
            if ent is None:
                return None
            r = self.prog.resolve(self.mod.name, fn.id)
            if r and r[0] in ('func',):
                return r[1], False
            if r and r[0] == 'class':
                m = self.prog.method(r[1], '__init__')
                return (m, 'new') if m else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.f.cls is not None and not static(self.f) and self.params \
                and fn.value.id == self.params[0]:
            m = self.prog.method(self.f.cls, fn.attr)
            if m is not None:
                return m, not static(m)
        return None

    def call(self, e):
        E = frozenset()
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        nm = fname(e.func)
        r = self.resolve(e.func)
        recv = self.ev(e.func.value) if isinstance(e.func, ast.Attribute) else E
        if 'out' in kws:
            self.hit(kws['out'], e, f'{nm}(out=)')
        if r is not None:
            callee, bound = r
            if callee.qual == self.f.qual or (callee.qual in self.eff.memo and False):
                self.recursive = True
            s = self.eff.of(callee)
            if s['calls']:
                self.calls = True
            a = callee.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            kwonly = [x.arg for x in a.kwonlyargs]
            off = 1 if bound else 0
            amap = {}
            if not any(isinstance(x, ast.Starred) for x in e.args):
                for k, v in enumerate(args):
                    if k + off < len(ps):
                        amap[k + off] = v
            else:
                u = E
                for v in args:
                    u |= v
                for k in range(len(ps)):
                    amap[k] = u
            for k, v in kws.items():
                if k in ps + kwonly:
                    amap[(ps + kwonly).index(k)] = v
            for k in s['poked']:
                self.poked |= {x[1] for x in amap.get(k, E) if x[0] == 'p' and x[2] == 0}
            for k, sites in s['writes'].items():
                if k in amap:
                    self.hit(amap[k], e, f'{ast.unparse(e.func)}(...) changes its argument {(ps + kwonly)[k]} ({sites[0][0]}:{sites[0][1]})')
            for g, sites in s['globals'].items():
                self.glob.setdefault(g, []).extend(sites)
            if bound is True:
                for at, sites in s['self'].items():
                    self.selfw.setdefault(at, []).extend(sites)
                out = E
                for root in s['ret']:
                    if root[0] == 'p':
                        out |= up(amap.get(root[1], E), root[2])
                    else:
                        out |= frozenset([root])
                return out
            if bound == 'new':
                u = E
                for v in args:
                    u |= up(v)
                return u
            out = E
            for root in s['ret']:
                if root[0] == 'p':
                    out |= up(amap.get(root[1], E), root[2])
                elif root[0] == 'g':
                    out |= frozenset([root])
            gu = gufunc_out(callee)
            if gu is not None and gu not in amap:
                pass
            return out
        if isinstance(e.func, ast.Attribute):
            if nm in COMM and not self.is_module(e.func.value):
                self.calls = True
                k = RECV.get(nm)
                if k is not None and k < len(args):
                    self.hit(args[k], e, f'{nm} receives into it')
                return E
            if nm in ('outer', 'reduce', 'at') and isinstance(e.func.value, ast.Attribute) and nm == 'at':
                if args:
                    self.hit(args[0], e, 'ufunc.at')
                return E
            if nm in NP_MUT and self.is_module(e.func.value):
                self.hit(args[NP_MUT[nm]] if args else E, e, f'{nm}()')
                return E
            if self.is_module(e.func.value):
                if UFUNC_OUT.get(nm) and len(args) > UFUNC_OUT[nm]:
                    self.hit(args[UFUNC_OUT[nm]], e, f'{nm} writes its third argument')
                    return args[UFUNC_OUT[nm]]
                if nm in VIEWS:
                    u = E
                    for v in args:
                        u |= v
                    if nm in ('array',):
                        return E
                    return u
                if nm == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                    return args[0] if args else E
                return E
            if nm in MUTATORS:
                if isinstance(e.func.value, ast.Name) and nm in ('append', 'add', 'insert', 'extend', 'update', 'setdefault'):
                    n0 = e.func.value.id
                    u = E
                    for v in args:
                        u |= v
                    if n0 in self.env:
                        self.hit(recv, e, f'.{nm}()')
                        self.env[n0] = self.env[n0] | (u if nm in ('extend', 'update') else up(u))
                        return E
                self.hit(recv, e, f'.{nm}()')
                return down(recv) if nm in VIEW_METHODS else E
            if nm in VIEW_METHODS:
                return down(recv) if nm in ('get', 'pop') else recv
            if nm == 'astype':
                if any(k.arg == 'copy' for k in e.keywords):
                    return recv
                return E
            if nm in PURE_METHODS or nm in ('copy', 'conj'):
                return E
            # method of an unknown object
            if any(x[0] in ('p', 's', 'x') for x in recv):
                self.calls = True
                if nm not in extern.QUERIES:
                    self.poked |= {x[1] for x in recv if x[0] == 'p' and x[2] == 0}
            return E
        if isinstance(e.func, ast.Name):
            if nm in VIEWS:
                u = E
                for v in args:
                    u |= v
                return down(u) if nm in ('next', 'max', 'min', 'getattr') else u
            if nm == 'setattr' and args:
                self.hit(args[0], e, 'setattr')
            if nm in self.closures:
                return self.closures[nm] | E
            ent = self.mod.names.get(nm)
            if ent is not None and ent[0] == 'assign' and isinstance(ent[1], ast.Call) and fname(ent[1].func) == 'get_blas_funcs' \
                    and ent[1].args and isinstance(ent[1].args[0], ast.Constant) and nm not in self.env:
                for k in {'axpy': (1,), 'scal': (1,), 'copy': (1,), 'swap': (0, 1)}.get(ent[1].args[0].value, ()):
                    if k < len(args):
                        self.hit(args[k], e, f'{nm}() works in place')
                return E
            if ent is not None and ent[0] in ('import', 'from') and nm in UFUNC_OUT and len(args) > UFUNC_OUT[nm]:
                self.hit(args[UFUNC_OUT[nm]], e, f'{nm} writes its third argument')
        return E

    def is_module(self, v):
        if isinstance(v, ast.Name):
            return v.id not in self.env and v.id in self.mod.names and self.mod.names[v.id][0] not in ('assign', 'func', 'class')
        if isinstance(v, ast.Attribute):
            return self.is_module(v.value)
        return False


def up(roots, n=1):
    return frozenset((a, b, min(d + n, 4)) for a, b, d in roots) if n else roots


def down(roots):
    return frozenset((a, b, max(d - 1, 0)) for a, b, d in roots)


OPN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.BitXor: '^',
       ast.BitOr: '|', ast.BitAnd: '&', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**', ast.MatMult: '@'}
UFUNC_OUT = {k: 2 for k in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'dot', 'matmul', 'power', 'maximum', 'minimum')}
UFUNC_OUT.update({k: 1 for k in ('exp', 'sqrt', 'negative', 'abs', 'absolute', 'conj', 'conjugate', 'log', 'square', 'reciprocal')})


def fname(fn):
    return fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''


def mutable_literal(v):
    return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
        isinstance(v, ast.Call) and fname(v.func) in ('list', 'dict', 'set', 'zeros', 'empty', 'array', 'defaultdict', 'ones')


def gufunc_out(f):
    for d in getattr(f.node, 'decorator_list', []):
        if isinstance(d, ast.Call) and fname(d.func) == 'guvectorize':
            return len(f.node.args.args) - 1
    return None
