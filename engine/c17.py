"""C17: collectives are entered by all ranks in the same order.

An abstract interpretation of every function that communicates.  A value carries 'L' when it can differ between ranks (it
comes from the rank, a local part of a distributed vector, a random draw, the receiving buffer of a rooted reduction) and 'S'
when its size can.  Results of all-to-all reductions, gathers and broadcasts carry neither.  A collective, or a call of a
function given by the caller that may contain one, must not be reached under a test or an iteration count that carries 'L',
nor after an exit taken under one; a callback handed to a library driver and containing collectives must not return 'L'."""
import ast
from .effects import Effects

UNIFORM = frozenset()
L = frozenset('L')
LS = frozenset('LS')

# collectives: name -> (positions of buffers that become equal on all ranks, ... that become local, taint of the result)
COLL = {
    'allreduce': ((), (), UNIFORM), 'bcast': ((), (), UNIFORM), 'allgather': ((), (), UNIFORM), 'Barrier': ((), (), UNIFORM),
    'barrier': ((), (), UNIFORM), 'Allreduce': ((1,), (), UNIFORM), 'Allgather': ((1,), (), UNIFORM), 'Allgatherv': ((1,), (), UNIFORM),
    'Bcast': ((0,), (), UNIFORM), 'Reduce': ((), (1,), UNIFORM), 'reduce': ((), (), L), 'gather': ((), (), L), 'Gather': ((), (1,), UNIFORM),
    'Gatherv': ((), (1,), UNIFORM), 'scatter': ((), (), L), 'Scatter': ((), (1,), UNIFORM), 'Scatterv': ((), (1,), UNIFORM),
    'Alltoall': ((), (1,), UNIFORM), 'Alltoallv': ((), (1,), UNIFORM), 'alltoall': ((), (), L), 'scan': ((), (), L), 'Scan': ((), (1,), UNIFORM),
    'Reduce_scatter': ((), (1,), UNIFORM), 'exscan': ((), (), L), 'Split': ((), (), L), 'Dup': ((), (), UNIFORM),
}
RANDOM = {'random', 'time', 'uuid', 'secrets', 'socket', 'os.getpid', 'os.urandom', 'np.random', 'numpy.random', 'os.environ', 'platform.node'}
SHAPELIKE = {'shape', 'size', 'ndim', 'dtype', 'itemsize', 'nbytes'}
SELECTING = {'nonzero', 'flatnonzero', 'argwhere', 'unique', 'compress', 'extract', 'filter'}
MUTATE = {'append', 'extend', 'insert', 'fill', 'sort', 'update', 'add', 'setdefault', 'pop', 'remove', 'itemset', 'resize', 'clear'}
INPLACE = {'axpy': 1, 'daxpy': 1, 'scal': 1, 'swap': (0, 1), 'copyto': 0, 'fill_diagonal': 0, 'put': 0}

# parameters that hold a part of a distributed object, by position
LOCAL = {
    'edpyt.lanczos._sl_step_mpi': (1, 2), 'edpyt.lanczos.build_sl_tridiag': (1,), 'edpyt.lanczos.sl_solve': (3,),
    'edpyt.vector_transpose.collect_dw': (0,), 'edpyt.vector_transpose.collect_up': (0,),
    'edpyt.observs._get_evecs_occupation_mpi': (0,), 'edpyt.observs.get_evecs_occupation': (0,),
    'edpyt.nano_dmft.Gfloc.set_local': (1,), 'edpyt.nano_dmft.Gfimp.__init__': (1,),
    'edpyt.nano_dmft.Gfimp.fit': (1,), 'edpyt.nano_dmft.Gfimp.update': (1,),
    'edpyt.dmft.DMFT.__call__': (1,), 'edpyt.dmft.DMFT.step': (1,), 'edpyt.dmft.DMFT.distance': (1,),
    'edpyt.dmft.DMFT.solve_with_broyden_mixing': (1,), 'edpyt.dmft.DMFT.solve_with_linear_mixing': (1,), 'edpyt.dmft.DMFT.solve': (1,),
}
CLOSURE_LOCAL = {'edpyt.matvec_product._matvec_operator_mpi': True}      # the function it returns takes a local vector
# the loops that drive a distributed lattice problem: attribute values of self
WORLDS = {'edpyt.dmft.DMFT': {'gfloc': 'edpyt.nano_dmft.Gfloc', 'gfimp': 'edpyt.nano_dmft.Gfimp'}}


class V:
    taint = UNIFORM


class T(V):
    __slots__ = ('taint', 'ext')

    def __init__(self, taint=UNIFORM, ext=None):
        self.taint = frozenset(taint)
        self.ext = ext                # dotted name of a library object


class Comm(V):
    pass


class Nil(V):
    def __init__(self, taint=UNIFORM):
        self.taint = frozenset(taint)        # absent on some ranks only


class Opq(V):
    """a function given by the caller, which may communicate"""


class Tup(V):
    def __init__(self, items):
        self.items = items

    @property
    def taint(self):
        return frozenset().union(*[i.taint for i in self.items]) if self.items else UNIFORM


class Fn(V):
    def __init__(self, node, mod, env, qual, bound=(), kw=None, local=False):
        self.node, self.mod, self.env, self.qual, self.bound, self.kw, self.local = node, mod, env, qual, tuple(bound), kw or {}, local


class Cls(V):
    def __init__(self, qual):
        self.qual = qual


class Inst(V):
    def __init__(self, qual):
        self.qual = qual


class Alt(V):
    def __init__(self, vs):
        self.vs = vs

    @property
    def taint(self):
        return frozenset().union(*[v.taint for v in self.vs])


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a.taint == b.taint and a.ext == b.ext
    if isinstance(a, (Comm, Opq)):
        return True
    if isinstance(a, Nil):
        return a.taint == b.taint
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Fn):
        return a.node is b.node and len(a.bound) == len(b.bound) and all(same(x, y) for x, y in zip(a.bound, b.bound))
    if isinstance(a, (Cls, Inst)):
        return a.qual == b.qual
    if isinstance(a, Alt):
        return len(a.vs) == len(b.vs) and all(same(x, y) for x, y in zip(a.vs, b.vs))
    return False


def join(a, b):
    if a is None or b is None:
        return a if b is None else b
    if same(a, b):
        return a
    if isinstance(a, T) and isinstance(b, T):
        return T(a.taint | b.taint)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([join(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, T) and isinstance(b, Tup):
        a, b = b, a
    if isinstance(a, Tup) and isinstance(b, T):
        return T(a.taint | b.taint)
    vs = []
    for v in (a.vs if isinstance(a, Alt) else [a]) + (b.vs if isinstance(b, Alt) else [b]):
        if not any(same(v, w) for w in vs):
            vs.append(v)
    return Alt(vs[:8])


def tint(v, t):
    """the value, differing between ranks on top of what it already is"""
    if not t:
        return v
    if isinstance(v, Tup):
        return Tup([tint(x, t) for x in v.items])
    if isinstance(v, Nil):
        return Nil(v.taint | t)
    if isinstance(v, T):
        return T(v.taint | t, v.ext)
    if isinstance(v, Alt):
        return Alt([tint(x, t) for x in v.vs])
    return v


class Frame:
    def __init__(self, fn, env):
        self.fn, self.env = fn, env
        self.rets = None
        self.mutated = set()
        self.exit = UNIFORM          # control after an exit taken on some ranks only
        self.loop = [UNIFORM]


class Stop(Exception):
    pass


class Analysis:
    def __init__(self, prog, funcs):
        self.prog, self.funcs = prog, funcs
        self.fields = {}             # (class, attr) -> V
        self.sites = {}              # (path, line, name) -> 'ok' | reason
        self.ctl = UNIFORM
        self.depth = 0
        self.frames = []
        self.raised = UNIFORM        # an exception some ranks only raise
        self.raise_sites = []
        self.work = 0
        self.globals = {}

    # ------------------------------------------------------------ reporting
    def collective(self, node, name, mod):
        key = (mod.path, node.lineno, name)
        self.count += 1
        if 'L' in self.ctl:
            self.sites[key] = self.why or 'a test that can differ between ranks'
        else:
            self.sites.setdefault(key, 'ok')

    why = None
    count = 0

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        e = fr.env
        while e is not None:
            if name in e:
                return e[name]
            e = e.get('$up')
        return self.global_(fr.fn.mod, name)

    def global_(self, mod, name, seen=()):
        key = (mod.name, name)
        if key in self.globals:
            return self.globals[key]
        if key in seen:
            return T()
        self.globals[key] = T(ext=name)
        r = self._global(mod, name)
        self.globals[key] = r
        return r

    def _global(self, mod, name):
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name and n.module:
                        return self.imported(n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        return T(ext=a.name if a.asname else name)
        for n in mod.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return Fn(n, mod, None, f'{mod.name}.{name}')
            if isinstance(n, ast.ClassDef) and n.name == name:
                return Cls(f'{mod.name}.{name}')
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                fr = Frame(Fn(None, mod, None, mod.name), {})
                return self.expr(n.value, fr)
        return T(ext=name)

    def imported(self, module, name):
        if module in self.prog.modules:
            return self.global_(self.prog.modules[module], name)
        full = f'{module}.{name}'
        if full in self.prog.modules:
            return T(ext=full)
        return self.external(full)

    def external(self, full):
        if full.endswith('COMM_WORLD') or full.endswith('COMM_SELF'):
            return Comm()
        return T(ext=full)

    # ------------------------------------------------------------ expressions
    def expr(self, e, fr):
        self.work += 1
        if self.work > 400000:
            raise Stop('too much work')
        if e is None:
            return Nil()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e, fr)
        t = UNIFORM
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                t |= self.expr(c, fr).taint
        return T(t)

    def e_Constant(self, e, fr):
        return Nil() if e.value is None else T()

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            t = UNIFORM
            for x in e.elts:
                t |= self.expr(x.value if isinstance(x, ast.Starred) else x, fr).taint
            return T(t)
        return Tup([self.expr(x, fr) for x in e.elts])

    e_List = e_Tuple

    def e_Lambda(self, e, fr):
        return Fn(e, fr.fn.mod, fr.env, fr.fn.qual + '.lambda')

    def e_IfExp(self, e, fr):
        t = self.truth(e.test, fr)
        if t is not None:
            return self.expr(e.body if t else e.orelse, fr)
        c = self.expr(e.test, fr).taint
        old, self.ctl = self.ctl, self.ctl | (c & L)
        r = join(self.expr(e.body, fr), self.expr(e.orelse, fr))
        self.ctl = old
        return tint(r, c & L)

    def e_BoolOp(self, e, fr):
        old = self.ctl
        r = None
        for v in e.values:
            x = self.expr(v, fr)
            self.ctl |= x.taint & L
            r = join(r, x)
        self.ctl = old
        return r

    def e_Compare(self, e, fr):
        t = self.expr(e.left, fr).taint
        for c in e.comparators:
            t |= self.expr(c, fr).taint
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            # whether it is there at all, not what it is
            v = self.expr(e.left, fr)
            vs = v.vs if isinstance(v, Alt) else [v]
            t = L if any(isinstance(x, Nil) and x.taint for x in vs) else UNIFORM
        return T(t)

    def e_Attribute(self, e, fr):
        return self.attr(self.expr(e.value, fr), e.attr, fr, e)

    def attr(self, v, name, fr, node):
        if isinstance(v, Alt):
            r = None
            for x in v.vs:
                r = join(r, self.attr(x, name, fr, node))
            return r
        if isinstance(v, Comm):
            return T(L) if name == 'rank' else T() if name == 'size' else T(ext='comm.' + name)
        if isinstance(v, Inst):
            f = self.method(v.qual, name)
            if f is not None:
                fn, prop, static = f
                if prop:
                    return self.call(Fn(fn.node, fn.mod, None, fn.qual), [v], {}, node, fr)
                return Fn(fn.node, fn.mod, None, fn.qual, () if static else (v,))
            x = self.fields.get((v.qual, name))
            return x if x is not None else T()
        if name in SHAPELIKE:
            return T(L if 'S' in v.taint else UNIFORM)
        if isinstance(v, T) and v.ext and not v.taint:
            if v.ext in self.prog.modules:
                return self.global_(self.prog.modules[v.ext], name)
            return self.external(v.ext + '.' + name)
        if isinstance(v, (Fn, Cls)):
            return T()
        return T(v.taint)

    def method(self, cls, name):
        mn, cn = cls.rsplit('.', 1)
        mod = self.prog.modules.get(mn)
        if mod is None:
            return None
        for n in mod.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == cn:
                for f in n.body:
                    if isinstance(f, ast.FunctionDef) and f.name == name:
                        decs = {ast.unparse(d) for d in f.decorator_list}
                        if any(d.endswith('.setter') for d in decs):
                            continue
                        return Fn(f, mod, None, f'{cls}.{name}'), 'property' in decs, 'staticmethod' in decs
                for b in n.bases:
                    v = self.global_(mod, b.id) if isinstance(b, ast.Name) else None
                    if isinstance(v, Cls) and v.qual != cls:
                        r = self.method(v.qual, name)
                        if r:
                            return r
        return None

    def e_Subscript(self, e, fr):
        v = self.expr(e.value, fr)
        i = self.expr(e.slice, fr)
        if isinstance(v, Tup) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v.items) <= e.slice.value < len(v.items):
            return v.items[e.slice.value]
        t = v.taint | (i.taint & L)
        # a mask selects a number of elements that is as local as the mask
        if 'L' in i.taint and any(isinstance(n, (ast.Compare, ast.BoolOp)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert)
                                  for n in ast.walk(e.slice)):
            t |= LS
        return T(t)

    def e_ListComp(self, e, fr):
        env = {'$up': fr.env}
        sub = Frame(fr.fn, env)
        sub.loop = fr.loop
        t = UNIFORM
        old = self.ctl
        for g in e.generators:
            it = self.expr(g.iter, sub)
            t |= it.taint & LS
            if 'S' in it.taint:
                self.ctl |= L
                self.reason(g.iter, fr)
            self.assign(g.target, T(it.taint & L) if isinstance(it, T) else self.element(it), sub)
            for c in g.ifs:
                x = self.expr(c, sub).taint
                if 'L' in x:
                    t |= LS
                    self.ctl |= L
                    self.reason(c, fr)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            t |= self.expr(x, sub).taint
        self.ctl = old
        return T(t)

    e_SetComp = e_GeneratorExp = e_DictComp = e_ListComp

    def element(self, v):
        if isinstance(v, Tup):
            r = None
            for x in v.items:
                r = join(r, x)
            return r if r is not None else T()
        if isinstance(v, Alt):
            r = None
            for x in v.vs:
                r = join(r, self.element(x))
            return r
        if isinstance(v, Inst):
            return T()
        return T(v.taint & L)

    def reason(self, node, fr):
        if self.why is None or 'L' not in self.ctl:
            pass
        self.why = f'line {getattr(node, "lineno", 0)} of {fr.fn.mod.path}: {ast.unparse(node)[:80]} can differ between ranks'

    def truth(self, e, fr):
        """known truth of an `is None` test"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, fr)
            return None if t is None else not t
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = self.expr(e.left, fr)
            if isinstance(v, (Comm, Fn, Inst, Opq, Tup)):
                r = False
            elif isinstance(v, Nil):
                r = True
            else:
                return None
            return r if isinstance(e.ops[0], ast.Is) else not r
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            v = self.lookup(e.id, fr)
            if isinstance(v, (Comm, Inst)):
                return True
            if isinstance(v, Nil):
                return False
        return None

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        f = e.func
        args, star = [], UNIFORM
        for a in e.args:
            v = self.expr(a.value if isinstance(a, ast.Starred) else a, fr)
            if isinstance(a, ast.Starred):
                if isinstance(v, Tup):
                    args += v.items
                    continue
                star |= v.taint
                args.append(T(v.taint))
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            kw[k.arg or '**'] = self.expr(k.value, fr)
        if isinstance(f, ast.Attribute):
            recv = self.expr(f.value, fr)
            if isinstance(recv, Comm) or isinstance(recv, Alt) and any(isinstance(x, Comm) for x in recv.vs):
                if f.attr in ('Get_rank',):
                    return T(L)
                if f.attr in COLL:
                    return self.coll(e, f.attr, args, kw, fr)
                return T()
            if f.attr == '__get__' and isinstance(recv, (Fn, Alt)) and args:
                return self.bind(recv, args[:1])
            fn = self.attr(recv, f.attr, fr, e)
            if isinstance(fn, (Fn, Cls, Opq, Alt, Inst)):
                return self.call(fn, args, kw, e, fr)
            t = recv.taint | star
            for a in list(args) + list(kw.values()):
                t |= a.taint
            ext = fn.ext if isinstance(fn, T) else None
            if isinstance(recv, T) and recv.ext and not recv.taint:
                return self.library(ext or f.attr, e, args, kw, t, fr)
            if f.attr in MUTATE:
                self.mutate(f.value, T(t | (LS if 'L' in self.ctl else UNIFORM)), fr)
            if f.attr in SELECTING and 'L' in t:
                t |= LS
            self.callbacks(args, kw, e, fr)
            return T(t)
        fn = self.expr(f, fr)
        if isinstance(fn, (Fn, Cls, Opq, Alt, Inst)):
            return self.call(fn, args, kw, e, fr)
        t = star | fn.taint
        for a in list(args) + list(kw.values()):
            t |= a.taint
        name = f.id if isinstance(f, ast.Name) else ''
        if name == 'len':
            return T(L if args and 'S' in args[0].taint else UNIFORM)
        if name == 'range':
            return T(LS if 'L' in t else UNIFORM)
        if name in ('partial',) or isinstance(fn, T) and fn.ext and fn.ext.endswith('.partial'):
            return self.bind(args[0], args[1:], kw) if args and isinstance(args[0], (Fn, Alt, Opq)) else T(t)
        if name in ('isinstance', 'hasattr', 'callable', 'type'):
            return T(t & L if False else UNIFORM)
        if name == 'map' and args and isinstance(args[0], (Fn, Alt, Opq)):
            return self.call(args[0], [self.element(a) for a in args[1:]], {}, e, fr)
        if name in ('zip', 'enumerate', 'reversed', 'sorted', 'list', 'tuple', 'iter'):
            if name in ('zip',):
                return Tup([Tup([self.element(a) for a in args])]) if not (t & {'S'}) else T(t)
            return T(t)
        return self.library(fn.ext if isinstance(fn, T) and fn.ext else name, e, args, kw, t, fr)

    def library(self, name, e, args, kw, t, fr):
        last = name.rsplit('.', 1)[-1]
        if any(name == r or name.startswith(r + '.') for r in RANDOM) and last not in ('seed', 'sleep', 'SeedSequence'):
            t |= L
        if last in SELECTING and 'L' in t or last == 'where' and len(args) == 1 and 'L' in t:
            t |= LS
        if last in ('empty', 'zeros', 'ones', 'full', 'arange', 'empty_like', 'zeros_like', 'ones_like', 'full_like'):
            # a new array: its size follows the argument
            a0 = args[0].taint if args else UNIFORM
            like = last.endswith('_like')
            t = (UNIFORM if ('S' if like else 'L') not in a0 else LS) | (args[1].taint & L if last.startswith('full') and len(args) > 1 else UNIFORM)
        if last in INPLACE:
            ks = INPLACE[last]
            for k in ks if isinstance(ks, tuple) else (ks,):
                if k < len(e.args):
                    self.mutate(e.args[k], T(t), fr)
        for k in e.keywords:
            if k.arg == 'out':
                self.mutate(k.value, T(t), fr)
        self.callbacks(args, kw, e, fr)
        return T(t & LS)

    def callbacks(self, args, kw, e, fr):
        """functions handed to a library driver: it calls them as often as their results make it"""
        for a in list(args) + list(kw.values()):
            for f in (a.vs if isinstance(a, Alt) else [a]):
                if not isinstance(f, Fn):
                    continue
                before = self.count
                n = n_free(f)
                data = frozenset().union(*[x.taint & L for x in args if isinstance(x, (T, Tup))]) if args else UNIFORM
                r = self.call(f, [T(data) for _ in range(n)], {}, e, fr)
                if self.count > before and 'L' in r.taint:
                    key = (fr.fn.mod.path, e.lineno, f'{ast.unparse(e.func)}({f.qual.rsplit(".", 1)[-1]})')
                    self.count += 1
                    self.sites[key] = f'drives {f.qual}, which communicates, by values that can differ between ranks'
                elif self.count > before:
                    self.sites.setdefault((fr.fn.mod.path, e.lineno, f'{ast.unparse(e.func)}({f.qual.rsplit(".", 1)[-1]})'), 'ok')

    def bind(self, f, args, kw=None):
        if isinstance(f, Alt):
            return Alt([self.bind(x, args, kw) if isinstance(x, Fn) else x for x in f.vs])
        if isinstance(f, Fn):
            return Fn(f.node, f.mod, f.env, f.qual, f.bound + tuple(args), {**f.kw, **(kw or {})}, f.local)
        return f

    def coll(self, e, name, args, kw, fr):
        self.collective(e, name, fr.fn.mod)
        clean, local, res = COLL[name]
        for k, t in [(k, UNIFORM) for k in clean] + [(k, L) for k in local]:
            b = e.args[k] if k < len(e.args) else None
            if b is None:
                continue
            if isinstance(b, (ast.List, ast.Tuple)) and b.elts:
                b = b.elts[0]
            self.mutate(b, T(t), fr, strong='L' not in self.ctl)
        if name in ('allreduce', 'bcast', 'allgather') and args:
            return T(res)
        return T(res)

    def call(self, fn, args, kw, e, fr):
        if isinstance(fn, Alt):
            r = None
            for x in fn.vs:
                if isinstance(x, (Fn, Cls, Opq, Inst)):
                    r = join(r, self.call(x, args, kw, e, fr))
                else:
                    r = join(r, T(x.taint | frozenset().union(*[a.taint for a in args]) if args else x.taint))
            return r
        if isinstance(fn, Opq):
            self.collective(e, ast.unparse(e.func) if isinstance(e, ast.Call) else 'call', fr.fn.mod)
            t = UNIFORM
            for a in list(args) + list(kw.values()):
                t |= a.taint
            return T(t)
        if isinstance(fn, Inst):
            m = self.method(fn.qual, '__call__')
            if m is None:
                return T(frozenset().union(*[a.taint for a in args]) if args else UNIFORM)
            return self.call(Fn(m[0].node, m[0].mod, None, m[0].qual, (fn,)), args, kw, e, fr)
        if isinstance(fn, Cls):
            inst = Inst(fn.qual)
            m = self.method(fn.qual, '__init__')
            if m is not None:
                self.call(Fn(m[0].node, m[0].mod, None, m[0].qual, (inst,)), args, kw, e, fr)
            return inst
        if not self.relevant(fn, list(args) + list(kw.values())):
            return self.plain(fn, args, kw, e, fr)
        if self.depth > 14 or fn.node is None or any(f.fn.node is fn.node for f in self.frames[-6:]):
            return T(frozenset().union(*[a.taint for a in args]) if args else UNIFORM)
        return self.run(fn, list(fn.bound) + list(args), {**fn.kw, **kw}, e, fr, len(fn.bound))

    def relevant(self, fn, args):
        """may it communicate: by what it calls, or by the objects and functions it is given"""
        if fn.qual.rsplit('.', 1)[-1] in self.talk or isinstance(fn.node, ast.Lambda) or fn.env is not None or fn.bound:
            return True
        return any(isinstance(y, (Comm, Inst, Fn, Opq)) for x in args for y in (x.vs if isinstance(x, Alt) else x.items if isinstance(x, Tup) else [x]))

    def plain(self, fn, args, kw, e, fr):
        """a function that only computes"""
        t = L if fn.qual.rsplit('.', 1)[-1] in self.draws else UNIFORM
        for a in list(args) + list(kw.values()):
            t |= a.taint
        ws = self.effects.get(fn.qual, ())
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if isinstance(e, ast.Call):
            for k, n in enumerate(names):
                if n in ws:
                    node = e.args[k] if k < len(e.args) else next((x.value for x in e.keywords if x.arg == n), None)
                    if node is not None and not isinstance(node, ast.Starred):
                        self.mutate(node, T(t & L), fr)
        return T(t)

    def closure(self, base):
        """names of functions that contain such a node, directly or through the functions they call by name"""
        calls, hit = {}, set()
        for name, m in self.prog.modules.items():
            if name.startswith('c:'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    c = calls.setdefault(n.name, set())
                    for x in ast.walk(n):
                        if base(x):
                            hit.add(n.name)
                        if isinstance(x, ast.Call):
                            c.add(x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else '')
        while True:
            new = {f for f, c in calls.items() if f not in hit and c & (hit - {'__init__', '__call__'})}
            if not new:
                return hit
            hit |= new

    def prepare(self):
        self.talk = self.closure(lambda x: isinstance(x, ast.Attribute) and x.attr in COLL and 'comm' in ast.unparse(x.value).lower())
        self.draws = self.closure(lambda x: isinstance(x, ast.Attribute) and any(ast.unparse(x).startswith(r + '.') for r in RANDOM | {'rng'}))
        self.effects = {}
        eff = Effects(self.prog)
        for q, f in self.funcs.items():
            if isinstance(f.node, ast.FunctionDef):
                try:
                    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
                    self.effects[q] = {names[k] for k in eff.of(f)['writes'] if 0 <= k < len(names)}
                except Exception:            # the effect analysis has no answer: nothing is assumed to be written
                    self.effects[q] = ()

    def run(self, fn, args, kw, e=None, caller=None, nbound=0):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'$up': fn.env}
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        new = Frame(fn, env)
        for k, n in enumerate(names):
            if k < len(args):
                env[n] = args[k]
            elif n in kw:
                env[n] = kw[n]
            elif '**' in kw:
                env[n] = T(kw['**'].taint)
            elif n in dflt:
                env[n] = Nil() if isinstance(dflt[n], ast.Constant) and dflt[n].value is None else T()
            else:
                env[n] = T()
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            env[x.arg] = kw.get(x.arg, Nil() if isinstance(d, ast.Constant) and d.value is None else T())
        if a.vararg:
            rest = args[len(names):]
            env[a.vararg.arg] = Tup(rest)
        if a.kwarg:
            t = UNIFORM
            for k, v in kw.items():
                t |= v.taint
            env[a.kwarg.arg] = T(t)
        first = dict(env)
        self.frames.append(new)
        self.depth += 1
        ctl0 = self.ctl
        count0, mark = self.count, len(self.raise_sites)
        if isinstance(fn.node, ast.Lambda):
            r = self.expr(fn.node.body, new)
        else:
            self.block(fn.node.body, new)
            r = new.rets if new.rets is not None else Nil()
        self.ctl = ctl0
        self.depth -= 1
        self.frames.pop()
        if self.count == count0:
            # nothing is communicated here: the exception matters to the function that called, not further up
            self.raise_sites[mark:] = [x[:4] + (x[4] + 1,) for x in self.raise_sites[mark:] if x[4] < 1]
        # buffers of the caller that were written
        if e is not None and caller is not None and isinstance(e, ast.Call):
            for k, n in enumerate(names):
                if n in new.mutated:
                    j = k - nbound
                    node = e.args[j] if 0 <= j < len(e.args) else next((x.value for x in e.keywords if x.arg == n), None)
                    if node is not None and not isinstance(node, ast.Starred):
                        self.mutate(node, T(env[n].taint) if not isinstance(env[n], Inst) else env[n], caller, strong=n in getattr(new, 'strong', ()))
        return r

    def mutate(self, node, v, fr, strong=False):
        while isinstance(node, (ast.Subscript, ast.Starred)):
            strong = False
            node = node.value
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            return self.mutate(node.func.value, v, fr)        # x.reshape(..), x.ravel()
        if isinstance(node, ast.Attribute):
            o = self.expr(node.value, fr)
            if isinstance(o, Inst):
                k = (o.qual, node.attr)
                self.fields[k] = join(self.fields.get(k), v)
                return
            return self.mutate(node.value, v, fr) if node.attr in ('flat', 'T', 'real', 'imag') else None
        if isinstance(node, ast.Name):
            e = fr.env
            while e is not None:
                if node.id in e:
                    old = e[node.id]
                    if isinstance(old, (T, Tup, Nil)) and isinstance(v, (T, Nil)):
                        e[node.id] = T(v.taint | (self.ctl & L)) if strong else T(old.taint | v.taint | (self.ctl & L))
                    break
                e = e.get('$up')
            fr.mutated.add(node.id)
            if strong:
                fr.__dict__.setdefault('strong', set()).add(node.id)

    # ------------------------------------------------------------ statements
    def block(self, ss, fr):
        for s in ss:
            if self.stmt(s, fr):
                return True
        return False

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = tint(v, self.ctl & L)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, fr)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, T(v.taint) if isinstance(v, (T, Tup, Alt, Nil)) else T(), fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            for x in o.vs if isinstance(o, Alt) else [o]:
                if isinstance(x, Inst):
                    k = (x.qual, t.attr)
                    self.fields[k] = join(self.fields.get(k), tint(v, self.ctl & L))
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice, fr)
            i = self.expr(t.slice, fr).taint & L
            self.mutate(t.value, T((v.taint & L) | i), fr)

    def stmt(self, s, fr):
        """True when control does not reach the next statement"""
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s, fr)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, fr)
        return False

    def s_Expr(self, s, fr):
        self.expr(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        v = self.expr(s.value, fr)
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id, fr)
            fr.env[s.target.id] = T(old.taint | v.taint | (self.ctl & L))
            fr.mutated.add(s.target.id)
        else:
            self.assign(s.target, T(v.taint), fr)

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = Fn(s, fr.fn.mod, fr.env, f'{fr.fn.qual}.{s.name}', local=fr.fn.qual in CLOSURE_LOCAL)

    def s_ClassDef(self, s, fr):
        fr.env[s.name] = T()

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = T(ext=a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            if s.module:
                fr.env[a.asname or a.name] = self.imported(s.module, a.name)

    def s_Return(self, s, fr):
        v = self.expr(s.value, fr) if s.value is not None else Nil()
        fr.rets = join(fr.rets, tint(v, self.ctl & L))
        if 'L' in self.ctl:
            fr.exit = L
        return True

    def s_Raise(self, s, fr):
        if s.exc is not None:
            self.expr(s.exc, fr)
        if 'L' in self.ctl:
            fr.exit = L
            self.raise_sites.append((fr.fn.mod.path, s.lineno, fr.fn.qual, self.why, 0))
        return True

    def s_Assert(self, s, fr):
        t = self.expr(s.test, fr).taint
        if 'L' in t and self.truth(s.test, fr) is None:
            self.reason(s.test, fr)
            self.raise_sites.append((fr.fn.mod.path, s.lineno, fr.fn.qual, self.why, 0))

    def s_Break(self, s, fr):
        if 'L' in self.ctl:
            fr.loop[-1] = L
        return True

    s_Continue = s_Break

    def s_With(self, s, fr):
        for i in s.items:
            v = self.expr(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        return self.block(s.body, fr)

    def s_Try(self, s, fr):
        env0 = dict(fr.env)
        d = self.block(s.body, fr)
        if not d:
            d = self.block(s.orelse, fr)
        for h in s.handlers:
            e1 = fr.env
            fr.env = dict(env0)
            if not self.block(h.body, fr):
                d = False
            fr.env = merge(e1, fr.env)
        self.block(s.finalbody, fr)
        return d

    def s_If(self, s, fr):
        t = self.truth(s.test, fr)
        if t is not None:
            return self.block(s.body if t else s.orelse, fr)
        c = self.expr(s.test, fr).taint & L
        old = self.ctl
        if c:
            self.reason(s.test, fr)
        why = self.why
        self.ctl = old | c
        env0 = dict(fr.env)
        da = self.block(s.body, fr)
        ea = fr.env
        fr.env = env0
        self.ctl = old | c
        self.why = why
        db = self.block(s.orelse, fr)
        eb = fr.env
        self.ctl = old
        if da and db:
            return True
        fr.env = eb if da else ea if db else merge(ea, eb)
        if c and (da or db):
            # the statements that follow are run by some ranks only
            self.ctl = old | L
        elif (fr.exit & L) or (fr.loop[-1] & L):
            self.ctl = old | L
        return False

    def loop(self, s, fr, setup):
        old = self.ctl
        env0 = dict(fr.env)
        state = UNIFORM
        for _ in range(4):
            fr.loop.append(state)
            self.ctl = old | state
            setup()
            before = {k: v for k, v in fr.env.items()}
            self.block(s.body, fr)
            state = state | fr.loop.pop() | fr.exit
            fr.env = merge(env0, fr.env)
            if all(k in before and same(before[k], v) for k, v in fr.env.items()) and _ > 0:
                break
            env0 = dict(fr.env)
        self.ctl = old | fr.exit
        self.block(s.orelse, fr)
        return False

    def s_For(self, s, fr):
        def setup():
            it = self.expr(s.iter, fr)
            t = it.taint
            if 'S' in t:
                self.reason(s.iter, fr)
                self.ctl |= L
            el = self.element(it)
            if isinstance(it, T) and 'S' in t and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range':
                el = T(L)
            self.assign(s.target, el, fr)
        return self.loop(s, fr, setup)

    def s_While(self, s, fr):
        def setup():
            t = self.expr(s.test, fr).taint
            if 'L' in t:
                self.reason(s.test, fr)
                self.ctl |= L
        return self.loop(s, fr, setup)


def merge(a, b):
    out = {}
    for k in set(a) | set(b):
        if k == '$up':
            out[k] = a.get(k, b.get(k))
        elif k in a and k in b:
            out[k] = join(a[k], b[k])
        else:
            out[k] = a.get(k, b.get(k))
    return out


def n_free(f):
    a = f.node.args
    n = len(a.posonlyargs + a.args) - len(f.bound) - len(a.defaults)
    return max(0, n)


def uses_comm(node):
    a = node.args
    return any(x.arg == 'comm' for x in a.posonlyargs + a.args + a.kwonlyargs)


def roots(prog):
    """(qualified name, node, module, class): functions that take a communicator, methods of classes that keep one, and
    module programs that communicate"""
    for name, m in sorted(prog.modules.items()):
        if name.startswith('c:'):
            continue
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef) and uses_comm(n):
                yield f'{name}.{n.name}', n, m, None
            if isinstance(n, ast.ClassDef):
                ms = [f for f in n.body if isinstance(f, ast.FunctionDef)]
                q = f'{name}.{n.name}'
                if any(f.name == '__init__' and uses_comm(f) for f in ms) or q in WORLDS:
                    for f in sorted(ms, key=lambda f: (f.name != '__init__', f.name not in ('set_local', 'update'))):
                        if not any(ast.unparse(d).endswith('.setter') for d in f.decorator_list):
                            yield f'{q}.{f.name}', f, m, q
        if any(isinstance(x, ast.Attribute) and x.attr == 'COMM_WORLD' for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))
               for x in ast.walk(s)):
            yield name, m.tree, m, None


def all_sites(prog):
    for name, m in sorted(prog.modules.items()):
        if name.startswith('c:'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in COLL:
                base = ast.unparse(n.func.value)
                if 'comm' in base.lower():
                    yield (m.path, n.lineno, n.func.attr)


def run(ctx):
    prog = ctx.C.prog
    an = Analysis(prog, ctx.C.funcs)
    an.prepare()
    # methods of a distributed class must exist before the loops that use them are looked at
    todo = sorted(roots(prog), key=lambda r: (r[3] in WORLDS, r[0] if r[3] is None else ''))
    where = {}
    for rep in range(2):               # attribute values are complete in the second pass
        an.sites.clear()
        done = []
        for q, node, mod, cls in todo:
            an.ctl, an.why, an.frames, an.depth, an.work = UNIFORM, None, [], 0, 0
            an.raise_sites = []
            c0 = an.count
            s0 = dict(an.sites)
            try:
                if isinstance(node, ast.Module):
                    an.globals = {k: v for k, v in an.globals.items() if k[0] != mod.name}
                    fr = Frame(Fn(None, mod, None, q), {})
                    an.frames = [fr]
                    an.block(node.body, fr)
                else:
                    names = [x.arg for x in node.args.posonlyargs + node.args.args]
                    vs = []
                    for k, n in enumerate(names):
                        if n == 'comm':
                            vs.append(Comm())
                        elif k == 0 and cls:
                            vs.append(Inst(cls))
                        elif k in LOCAL.get(q, ()):
                            vs.append(T(L))
                        elif called(node, n):
                            vs.append(Opq())
                        else:
                            vs.append(T())
                    kw = {x.arg: Comm() for x in node.args.kwonlyargs if x.arg == 'comm'}
                    if cls in WORLDS:
                        for a, c in WORLDS[cls].items():
                            an.fields[(cls, a)] = Inst(c)
                    r = an.run(Fn(node, mod, None, q), vs, kw)
                    # the function it returns is run with a local vector
                    for f in (r.vs if isinstance(r, Alt) else [r]):
                        if isinstance(f, Fn) and f.local:
                            an.ctl = UNIFORM
                            an.run(f, [T(L)] * max(1, n_free(f)), {})
            except (Stop, RecursionError) as ex:
                if rep:
                    ctx.undecided_(f'collectives {q}', str(ex) or type(ex).__name__)
                continue
            if an.count > c0:
                for p, line, fq, why, _ in an.raise_sites:
                    key = (p, line, 'raise in ' + fq.split('.', 1)[-1])
                    an.sites[key] = f'an exception that some ranks only raise, in a program that communicates ({why})'
            for k in an.sites:
                where.setdefault(k, q)
            done.append((q, an.count - c0))
    for key, st in sorted(an.sites.items()):
        p, line, name = key
        q = owner(prog, p, line)
        if st == 'ok':
            ctx.holds(f'collective {q} {name} line {line}', 'reached under tests all ranks agree on')
        else:
            w = next((c for c in WORLDS if q.startswith(c + '.') and where.get(key, '').startswith(c + '.')), None)
            kind = 'leaves the iteration on a local error' if name.startswith('raise in') else \
                'iterates on local residuals' if '(' in name else None
            if w and kind:
                ctx.violated('collective depends on the rank', f'{w} {kind}', f'{p}:{line}', st)
            else:
                ctx.violated('collective depends on the rank', f'{q} {name}', f'{p}:{line}', st)
    for key in sorted(set(all_sites(prog)) - set(an.sites)):
        ctx.undecided_(f'collective {owner(prog, key[0], key[1])} {key[2]} line {key[1]}', 'not reached from a function that takes a communicator')
    ctx.notes.append(f'{len(todo)} functions, methods and programs read; {sum(n for _, n in done)} collective calls interpreted')


def called(node, name):
    return any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == name or
               any(isinstance(a, ast.Name) and a.id == name for a in x.args) and name in ('matvec',)) for x in ast.walk(node))


def owner(prog, path, line):
    for name, m in prog.modules.items():
        if m.path == path:
            best = None
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= (n.end_lineno or line):
                    if best is None or n.lineno >= best[0]:
                        best = (n.lineno, n.name if best is None else best[1] + '.' + n.name)
            return f'{name}.{best[1]}' if best else name
    return path
