"""C25: foreign-function boundaries.

The C side is read through clang (prototypes, definitions, globals, structures of every source and header), the other side
from where it is declared: cffi's cdef text (also through clang), ctypes argtypes, the Cython declarations.  Call sites are
followed with a small abstract interpretation of the Python functions around them: element type, contiguity, whether an
array has been given values, which object keeps an address alive, and which C variables have been set."""
import ast
import os
import re
from . import front_c

BASES = {'int32_t': 'int', '__int32_t': 'int', 'csi': 'int', 'ptrdiff_t': 'long', 'Py_ssize_t': 'long', 'size_t': 'unsigned long',
         'int64_t': 'long', '__int64_t': 'long', 'complex double': 'double _Complex', '_Complex double': 'double _Complex',
         'double complex': 'double _Complex', 'complex': 'double _Complex', 'intc': 'int', 'signed int': 'int', 'long int': 'long',
         'long long': 'long', 'np.float64_t': 'double', 'np.int32_t': 'int', 'np.int64_t': 'long', 'np.double_t': 'double',
         'np.complex128_t': 'double _Complex', 'np.intc_t': 'int', 'np.float32_t': 'float', 'double complex ': 'double _Complex',
         'np.int_t': 'long', 'np.float_t': 'double', 'np.intp_t': 'long', 'np.complex64_t': 'float _Complex'}


def norm(t, aliases=None):
    """C type text -> canonical, arrays as pointers"""
    t = re.sub(r'\b(const|restrict|volatile|__restrict|struct|extern|register)\b', ' ', t)
    t = re.sub(r'\s+', ' ', t).strip()
    m = re.match(r'^(.*?)\s*\(\*\)\s*(\(.*\))$', t)
    if m:
        return f'{norm(m.group(1), aliases)} (*)(' + ', '.join(norm(x, aliases) for x in split(m.group(2)[1:-1])) + ')'
    stars = 0
    while True:
        t = t.strip()
        if t.endswith('*'):
            t, stars = t[:-1], stars + 1
        elif t.endswith(']'):
            t, stars = t[:t.rindex('[')], stars + 1
        else:
            break
    seen = 0
    while seen < 5:
        n = (aliases or {}).get(t, BASES.get(t, t))
        if n == t:
            break
        while n.endswith('*'):
            n, stars = n[:-1].strip(), stars + 1
        t, seen = n, seen + 1
    return t + ('' if not stars else ' ' + '*' * stars)


def split(text):
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch == ',' and not depth:
            out.append(cur.strip())
            cur = ''
            continue
        depth += ch in '([{'
        depth -= ch in ')]}'
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Decl:
    def __init__(self, name, where, ret, types, names, defn, node=None):
        self.name, self.where, self.ret, self.types, self.names, self.defn, self.node = name, where, ret, types, names, defn, node

    def text(self):
        return f'{self.ret} {self.name}({", ".join(self.types)})'


def typ(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def key(n):
    return n.strip('_').lower()


class C:
    """everything the C files say"""

    def __init__(self, ctx):
        self.funcs, self.vars, self.structs, self.bad = {}, {}, {}, []
        over = getattr(ctx, 'overrides', {})
        files = {}
        for pkg in ('edpyt', 'edpyt_backend'):
            base = os.path.join(str(ctx.repo), pkg)
            for f in sorted(os.listdir(base)) if os.path.isdir(base) else ():
                p = os.path.join(base, f)
                if f.endswith('.c') and not f.startswith(('_fit', 'test_')) and not os.path.exists(p[:-2] + '.pyx'):
                    if not os.path.exists(os.path.join(base, f[1:-2] + '.pyx')):
                        files[p] = over.get(os.path.relpath(p, str(ctx.repo)))
        self.repo = str(ctx.repo)
        from concurrent.futures import ThreadPoolExecutor

        def one(p):
            try:
                t = front_c.dump(p, files[p])
                front_c.locate(t, p)
                return p, t
            except (SyntaxError, ValueError, OSError) as e:
                return p, str(e)
        with ThreadPoolExecutor(8) as ex:
            for p, t in ex.map(one, list(files)):
                if isinstance(t, str):
                    self.bad.append((p, t))
                else:
                    self.take(t.get('inner', ()), p)

    def take(self, nodes, unit, only=None):
        names = {}
        for d in nodes:
            f = d.get('_file') or unit
            f = unit if f == '<stdin>' else os.path.normpath(f)
            if not f.startswith(self.repo) and only is None:
                continue
            where = f'{f}:{d.get("_line")}'
            k = d.get('kind')
            if k == 'FunctionDecl':
                ps = [p for p in d.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
                qt = (d.get('type') or {}).get('qualType', '')
                e = Decl(d['name'], where, norm(qt[:qt.index('(')]), [norm(typ(p)) for p in ps], [p.get('name') or '' for p in ps],
                         front_c.body_of(d) is not None, d)
                have = self.funcs.setdefault(d['name'], {})
                have.setdefault((where, e.defn), e)
            elif k == 'VarDecl':
                init = any(c.get('kind') != 'FullComment' for c in d.get('inner', ()))
                self.vars.setdefault(d['name'], {}).setdefault(where, (norm(typ(d)), d.get('storageClass'), init))
            elif k == 'RecordDecl' and d.get('completeDefinition'):
                names[d['id']] = [(c['name'], norm(typ(c))) for c in d.get('inner', ()) if c.get('kind') == 'FieldDecl']
                if d.get('name'):
                    self.structs[d['name']] = (where, names[d['id']])
            elif k == 'TypedefDecl':
                m = re.match(r'(?:struct )?(\w+)$', (d.get('type') or {}).get('desugaredQualType') or (d.get('type') or {}).get('qualType', ''))
                if m and m.group(1) in self.structs:
                    self.structs[d['name']] = self.structs[m.group(1)]

    def definition(self, name):
        return next((e for e in self.funcs.get(name, {}).values() if e.defn), None)

    def prototype(self, name):
        return self.definition(name) or next(iter(self.funcs.get(name, {}).values()), None)

    # ---- globals a function reads before it has set them
    def needs(self, name, seen=()):
        """(read before set, set) of a function"""
        d = self.definition(name)
        if d is None or name in seen:
            return set(), set()
        need, done = set(), set()

        def go(n):
            k = n.get('kind')
            if k == 'BinaryOperator' and n.get('opcode') == '=':
                go(n['inner'][1])
                t = n['inner'][0]
                while t.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                    t = t['inner'][0]
                if t.get('kind') == 'DeclRefExpr' and t['referencedDecl']['name'] in self.vars:
                    done.add(t['referencedDecl']['name'])
                else:
                    go(t)
                return
            if k == 'DeclRefExpr':
                r = n['referencedDecl']
                if r['kind'] == 'VarDecl' and r['name'] in self.vars and r['name'] not in local and r['name'] not in done:
                    need.add(r['name'])
                if r['kind'] == 'FunctionDecl':
                    a, b = self.needs(r['name'], seen + (name,))
                    need.update(a - done)
                    calls.append(r['name'])
                return
            if k in ('VarDecl', 'ParmVarDecl') and n.get('name'):
                local.add(n['name'])
            for c in n.get('inner', ()):
                if c.get('kind'):
                    go(c)
            if k == 'CallExpr':
                f = n['inner'][0]
                while f.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                    f = f['inner'][0]
                if f.get('kind') == 'DeclRefExpr':
                    done.update(self.needs(f['referencedDecl']['name'], seen + (name,))[1])
        local, calls = set(), []
        go(d.node)
        need = {v for v in need if not any(i or s == 'static' for _, s, i in self.vars[v].values())}
        return need, done


# ------------------------------------------------------------------ C against C
def declarations(ctx, c):
    for name, ds in sorted(c.funcs.items()):
        d = c.definition(name)
        if d is None:
            continue
        for e in ds.values():
            if e is d:
                continue
            compare(ctx, d, e, f'{os.path.relpath(e.where.rsplit(":", 1)[0], c.repo)} {name}')
    for name, vs in sorted(c.vars.items()):
        kinds = {}
        for where, (t, store, _) in vs.items():
            if store != 'static':
                kinds.setdefault(t, []).append(where)
        if len(kinds) > 1:
            defs = {t for t, (w) in kinds.items() for x in w if vs[x][1] != 'extern'}
            for t, ws in kinds.items():
                if t not in defs and defs:
                    f = os.path.relpath(ws[0].rsplit(':', 1)[0], c.repo)
                    ctx.violated('a C variable is declared with another type than it has', f'{f} {name}', ws[0], f'{t}, defined as {min(defs)}')
        elif sum(len(w) for w in kinds.values()) > 1:
            ctx.holds(f'C variable {name}', f'{next(iter(kinds))} in {sum(len(w) for w in kinds.values())} declarations')


def compare(ctx, d, e, label, what='declaration'):
    """declaration e against definition d"""
    if len(d.types) != len(e.types):
        ctx.violated('declared with another number of parameters', label, e.where, f'{e.text()}; defined as {d.text()}')
        return False
    for i, (a, b) in enumerate(zip(d.types, e.types)):
        if a != b:
            ctx.violated('declared with another parameter type', label, e.where,
                         f'parameter {i + 1} ({d.names[i]}) is {b}, defined as {a}')
            return False
    if e.ret is not None and d.ret != e.ret:
        ctx.violated('declared with another return type', label, e.where, f'{e.ret}, defined as {d.ret}')
        return False
    a, b = [key(n) for n in d.names], [key(n) for n in e.names]
    if a != b and sorted(a) == sorted(b) and all(a):
        ctx.violated('declared with the parameters in another order', label, e.where, f'({", ".join(e.names)}), defined as ({", ".join(d.names)})')
        return False
    ctx.holds(f'{what} {label}', d.text())
    return True


# ------------------------------------------------------------------ Python side
DT = {}
for _t, _ns in {'double': 'float float64 double float_ d f8 <f8 c_double', 'float': 'float32 single f f4 c_float',
                'double _Complex': 'complex complex128 cdouble complex_ D c16', 'float _Complex': 'complex64 csingle F',
                'int': 'int32 intc i i4 c_int c_int32', 'long': 'int int64 int_ l i8 c_long longlong intp', 'short': 'int16 c_short',
                'unsigned char': 'uint8 B', 'unsigned int': 'uint32 uintc c_uint', 'unsigned long': 'uint64 c_ulong c_size_t'}.items():
    for _n in _ns.split():
        DT[_n] = _t
CT = {k: v for k, v in DT.items() if k.startswith('c_')}
FRESH = {'zeros': True, 'ones': True, 'full': True, 'empty': False, 'arange': True, 'linspace': True}
LIKE = {'zeros_like': True, 'ones_like': True, 'full_like': True, 'empty_like': False}


class Arr:
    def __init__(self, dtype, contig, init=True):
        self.dtype, self.contig, self.init = dtype, contig, init     # 'caller': whatever the caller passed; None: not known


class Module:
    """what one Python module declares about C and how it calls it"""

    def __init__(self, ctx, c, m, cffi):
        self.ctx, self.c, self.m, self.cffi = ctx, c, m, cffi
        self.rel = m.relpath
        self.env = {}
        self.argtypes, self.restype = {}, {}
        self.calls = 0
        self.fns = {f.name: f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef)}
        self.set0 = set()

    def where(self, n):
        return f'{self.m.path}:{getattr(n, "lineno", 0)}'

    def run(self):
        self.fn = '<module>'
        self.order, self.set_, self.version = {}, set(), {}
        body = [s for s in self.m.tree.body if not (isinstance(s, ast.If) and '__main__' in ast.unparse(s.test))]
        self.body(body, self.env)
        if not any(isinstance(v, tuple) and v[0] in ('lib', 'cfun') for v in self.env.values()):
            return
        self.declared()
        self.set0 = set(self.set_)
        # helpers are followed from the functions that call them
        inner = {c.func.id for f in self.fns.values() for c in ast.walk(f) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
                 and c.func.id in self.fns and c.func.id != f.name}
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.FunctionDef) and n.name not in inner:
                self.fn = n.name
                self.function(n)

    def function(self, n):
        env = dict(self.env)
        for a in n.args.args + n.args.kwonlyargs:
            env[a.arg] = ('param', a.arg)
        self.set_, self.version, self.depth = set(self.set0), {}, 0
        self.body(n.body, env)

    def declared(self):
        for name, (types, node) in sorted(self.argtypes.items()):
            d = self.c.prototype(name)
            label = f'{self.rel} {name}'
            if d is None:
                self.ctx.violated('declares a C function that is not defined', label, self.where(node), f'no C source defines {name}')
                continue
            if types is None:
                self.ctx.undecided_(label, 'argument types not a literal list')
                continue
            if len(types) != len(d.types):
                self.ctx.violated('declared with another number of parameters', label, self.where(node),
                                  f'{len(types)} argument types; defined as {d.text()}')
                continue
            ok = True
            for i, (t, want) in enumerate(zip(types, d.types)):
                have = None if t is None or t[1] is None else t[1] + (' *' if t[0] in ('pointer', 'array') else '')
                if t is not None and t[0] == 'pointer' and t[1] and t[1].endswith('*'):
                    have = t[1] + '*'
                if have is None or (want.endswith('*') and have == 'void *'):
                    self.ctx.undecided_(f'{label} argument {i + 1}', 'type not resolved')
                    ok = False
                elif have != want:
                    self.ctx.violated('declared with another parameter type', label, self.where(node),
                                      f'argument {i + 1} ({d.names[i]}) is {have}, defined as {want}')
                    ok = False
            if ok:
                self.ctx.holds(f'argument types {label}', d.text())
        for name, (t, node) in sorted(self.restype.items()):
            d = self.c.prototype(name)
            if d is None or t == '?':
                continue
            if (t or 'void') != d.ret and not (t is not None and d.ret == 'void'):
                self.ctx.violated('declared with another return type', f'{self.rel} {name}', self.where(node), f'{t or "void"}, defined as {d.ret}')

    # ---- statements
    def body(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name.split('.')[0]
                mod = getattr(s, 'module', None) or ''
                env[n] = ('name', f'{mod}.{a.name}' if isinstance(s, ast.ImportFrom) else (a.name if a.asname else n))
                if isinstance(s, ast.ImportFrom) and mod.endswith('_fit') and a.name in ('lib', 'ffi'):
                    env[n] = ('lib', 'cffi') if a.name == 'lib' else ('ffi',)
                if isinstance(s, ast.ImportFrom) and a.name == '_fit':
                    env[n] = ('fitmod',)
                if not isinstance(s, ast.ImportFrom) and a.name.endswith('_fit') and a.asname:
                    env[n] = ('fitmod',)
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, s.value, env)
            return
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, env), s.value, env)
            return
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            v = self.ev(s.target, env)
            if isinstance(s.target, ast.Name) and not isinstance(v, Arr):
                self.bind(s.target.id, None, env)
            return
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = self.ev(s.value, env)
            return
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            before = set(self.set_)
            self.body(s.body, a)
            one, self.set_ = self.set_, set(before)
            self.body(s.orelse, b)
            ends = lambda ss: ss and isinstance(ss[-1], (ast.Return, ast.Raise))
            if ends(s.body) and not ends(s.orelse):
                a, one = b, self.set_
            elif ends(s.orelse):
                b, self.set_ = a, one
            self.set_ &= one
            for k in set(a) | set(b):
                env[k] = merge(a.get(k), b.get(k))
            return
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.ev(s.iter, env)
                self.assign(s.target, None, None, env)
            a = dict(env)
            self.body(s.body, a)
            for k in set(a) | set(env):
                env[k] = merge(a.get(k), env.get(k))
            self.body(s.orelse, env)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr, env)
            self.body(s.body, env)
            return
        if isinstance(s, ast.Try):
            self.body(s.body, env)
            for h in s.handlers:
                self.body(h.body, dict(env))
            self.body(s.orelse, env)
            self.body(s.finalbody, env)
            return
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.ev(e, env)

    def bind(self, name, v, env):
        env[name] = v
        self.version[name] = self.version.get(name, 0) + 1

    def assign(self, t, v, node, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v[0] == 'seq' and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, None, env)
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            if isinstance(b, Arr):
                b.init = True
            return
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(b, tuple) and b[0] == 'cfun' and t.attr in ('argtypes', 'restype'):
                if t.attr == 'argtypes':
                    vs = v[1] if isinstance(v, tuple) and v[0] == 'seq' else None
                    self.argtypes[b[2]] = (None if vs is None else [x if isinstance(x, tuple) and x[0] in ('ctype', 'pointer', 'array')
                                                                     else None for x in vs], t)
                else:
                    none = isinstance(node, ast.Constant) and node.value is None
                    self.restype[b[2]] = (None if none else v[1] if isinstance(v, tuple) and v[0] == 'ctype' else '?', t)
                return
            if isinstance(b, tuple) and b[0] == 'cvar' and t.attr == 'value':
                self.set_.add(b[1])
                return
            if isinstance(b, tuple) and b[0] == 'lib':
                self.set_.add(t.attr)
            if b is None and t.attr == 'value':
                self.set_.add('*')

    # ---- expressions
    def ev(self, e, env):
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if v is None and e.id in ('float', 'complex', 'int'):
                return ('name', e.id)
            return v
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or e.value is None:
                return ('const', e.value)
            if isinstance(e.value, (int, float, str)):
                return ('const', e.value)
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('seq', [self.ev(x, env) for x in e.elts])
        if isinstance(e, ast.Attribute):
            return self.attr(e, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(b, tuple) and b[0] == 'param':
                b = Arr('caller', 'caller')
            if isinstance(b, Arr):
                if isinstance(e.slice, ast.Slice):
                    step = e.slice.step
                    return Arr(b.dtype, b.contig if step is None else False, b.init)
                return None
            return None
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'const' and isinstance(a[1], str) and isinstance(
                    b[1], str) and isinstance(e.op, ast.Add):
                return ('const', a[1] + b[1])
            if isinstance(a, tuple) and a[0] == 'ctype' and isinstance(e.op, ast.Mult):
                return None
            if isinstance(e.op, ast.FloorDiv):
                return ('int',)
            if isinstance(e.op, ast.Div) and not isinstance(a, Arr) and not isinstance(b, Arr):
                return None
            return None
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return merge(self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, e.value, env)
            return v
        if isinstance(e, ast.Starred):
            self.ev(e.value, env)
            return None
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return None
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return None

    def attr(self, e, env):
        b = self.ev(e.value, env)
        if isinstance(b, tuple):
            if b[0] == 'name':
                q = f'{b[1]}.{e.attr}'
                if b[1] in ('ctypes',) and e.attr in CT:
                    return ('ctype', CT[e.attr])
                return ('name', q)
            if b[0] == 'fitmod':
                return ('lib', 'cffi') if e.attr == 'lib' else ('ffi',) if e.attr == 'ffi' else None
            if b[0] == 'lib':
                if e.attr in self.c.vars and e.attr not in self.c.funcs:
                    return ('cvar', e.attr)
                if b[1] == 'cffi' and e.attr not in self.cffi and self.cffi:
                    self.ctx.violated('declares a C function that is not defined', f'{self.rel} {e.attr}', self.where(e),
                                      f'{e.attr} is not in the cdef text')
                elif e.attr not in self.c.funcs:
                    self.ctx.violated('declares a C function that is not defined', f'{self.rel} {e.attr}', self.where(e),
                                      f'no C source defines {e.attr}')
                return ('cfun', b[1], e.attr)
            if b[0] == 'param':
                b = Arr('caller', 'caller')
            elif b[0] == 'ctypesview' and e.attr == 'data':
                return ('address', b[1], b[2])
            elif b[0] == 'ctype':
                return ('ctypeattr', b[1], e.attr)
        if isinstance(b, Arr):
            if e.attr == 'ctypes':
                owner = (e.value.id, self.version.get(e.value.id, 0)) if isinstance(e.value, ast.Name) else None
                return ('ctypesview', b, owner)
            if e.attr in ('real', 'imag'):
                return Arr('double' if b.dtype == 'double _Complex' else None, False if b.dtype == 'double _Complex' else None, b.init)
            if e.attr == 'T':
                return Arr(b.dtype, None, b.init)
            if e.attr == 'dtype':
                return ('dtypeof', b.dtype)
        return None

    def dtype(self, e, env):
        if e is None:
            return None
        v = self.ev(e, env)
        if isinstance(v, tuple):
            if v[0] == 'name':
                return DT.get(v[1].rsplit('.', 1)[-1])
            if v[0] == 'const' and isinstance(v[1], str):
                return DT.get(v[1])
            if v[0] == 'ctype':
                return v[1]
            if v[0] == 'dtypeof':
                return v[1]
        return None

    def kw(self, e, name, pos=None):
        for k in e.keywords:
            if k.arg == name:
                return k.value
        if pos is not None and len(e.args) > pos and not any(isinstance(a, ast.Starred) for a in e.args):
            return e.args[pos]
        return None

    def call(self, e, env):
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            r = self.method(e, f, b, env)
            if r is not NotImplemented:
                return r
        v = self.ev(f, env)
        if isinstance(v, tuple) and v[0] == 'cfun':
            return self.ccall(e, v, env)
        if isinstance(v, tuple) and v[0] == 'ctype':
            for a in e.args:
                self.ev(a, env)
            return ('cvalue', v[1])
        if isinstance(v, tuple) and v[0] == 'ctypeattr' and v[2] == 'in_dll':
            name = self.ev(e.args[1], env) if len(e.args) > 1 else None
            if isinstance(name, tuple) and name[0] == 'const':
                vs = self.c.vars.get(name[1])
                label = f'{self.rel} {self.fn} {name[1]}'
                if not vs:
                    self.ctx.violated('uses a C variable that is not defined', label, self.where(e), f'no C source defines {name[1]}')
                else:
                    t = next(iter(vs.values()))[0]
                    if t != v[1]:
                        self.ctx.violated('a C variable is declared with another type than it has', label, self.where(e), f'{v[1]}, defined as {t}')
                    else:
                        self.ctx.holds(f'C variable {label}', t)
                return ('cvar', name[1])
            return None
        if isinstance(v, tuple) and v[0] == 'name':
            r = self.library(e, v[1], env)
            if r is not NotImplemented:
                return r
        if isinstance(f, ast.Name) and f.id in self.fns and v is None and getattr(self, 'depth', 9) < 3:
            return self.inline(self.fns[f.id], e, env)
        for a in list(e.args) + [k.value for k in e.keywords]:
            x = self.ev(a, env)
            if isinstance(x, Arr):
                x.init = True
        return None

    def inline(self, fn, e, env):
        names = [a.arg for a in fn.args.args]
        if any(isinstance(a, ast.Starred) for a in e.args) or len(e.args) > len(names):
            return None
        new = dict(self.env)
        for n, a in zip(names, e.args):
            new[n] = self.ev(a, env)
        for k in e.keywords:
            if k.arg:
                new[k.arg] = self.ev(k.value, env)
        saved = (self.version, getattr(self, 'ret', None), self.fn)
        self.version, self.ret, self.depth, self.fn = {}, None, self.depth + 1, fn.name
        try:
            self.body(fn.body, new)
            return self.ret
        finally:
            self.version, self.ret, self.fn = saved
            self.depth -= 1

    def method(self, e, f, b, env):
        n = f.attr
        if isinstance(b, tuple) and b[0] == 'param':
            b = Arr('caller', 'caller')
        if isinstance(b, Arr):
            if n == 'astype':
                d = self.dtype(self.kw(e, 'dtype', 0), env)
                c = self.kw(e, 'copy')
                same = c is not None and isinstance(c, ast.Constant) and c.value is False
                return Arr(d, b.contig if same else True, b.init)
            if n == 'copy':
                return Arr(b.dtype, True, b.init)
            if n == 'fill':
                b.init = True
                return None
            if n in ('ravel', 'flatten', 'reshape', 'squeeze', 'view'):
                return Arr(b.dtype if n != 'view' else None, True if n == 'flatten' else (b.contig if b.contig is True else None), b.init)
            for a in list(e.args) + [k.value for k in e.keywords]:
                self.ev(a, env)
            return None
        if isinstance(b, tuple) and b[0] == 'ctypesview' and n == 'data_as':
            t = self.ev(e.args[0], env) if e.args else None
            return ('cptr', t[1] if isinstance(t, tuple) and t[0] == 'pointer' else None, b[1], 'kept')
        if isinstance(b, tuple) and b[0] == 'ffi':
            if n == 'cast' and len(e.args) == 2:
                t = self.ev(e.args[0], env)
                v = self.ev(e.args[1], env)
                el = None
                if isinstance(t, tuple) and t[0] == 'const':
                    ty = norm(t[1])
                    if not ty.endswith('*'):
                        return ('cvalue', ty)
                    el = ty[:-1].strip()
                if isinstance(v, tuple) and v[0] == 'address':
                    return ('cptr', el, v[1], v[2] or 'nothing')
                if isinstance(v, tuple) and v[0] == 'cptr':
                    return ('cptr', el, v[2], v[3])
                return ('cptr', el, None, None)
            if n == 'new' and e.args:
                t = self.ev(e.args[0], env)
                if isinstance(t, tuple) and t[0] == 'const':
                    return ('cnew', norm(t[1])[:-1].strip())
                return None
            if n == 'from_buffer' and e.args:
                vs = [self.ev(a, env) for a in e.args]
                t = norm(vs[0][1]) if len(vs) > 1 and isinstance(vs[0], tuple) and vs[0][0] == 'const' else 'char *'
                a = vs[1] if len(vs) > 1 else vs[0]
                if isinstance(a, tuple) and a[0] == 'param':
                    a = Arr('caller', True)
                elif isinstance(a, Arr):
                    a = Arr(a.dtype, True, a.init)          # from_buffer refuses other layouts
                return ('cptr', t[:-1].strip(), a if isinstance(a, Arr) else None, 'kept')
            return None
        return NotImplemented

    def library(self, e, q, env):
        last = q.rsplit('.', 1)[-1]
        if q in ('ctypes.CDLL', 'ctypes.cdll.LoadLibrary', 'ctypes.PyDLL') or q.endswith('ctypeslib.load_library') or last == 'CDLL':
            return ('lib', 'ctypes')
        if last == 'ndpointer':
            d = self.kw(e, 'dtype', 0)
            fl = self.kw(e, 'flags', 3)
            text = ast.unparse(fl) if fl is not None else ''
            return ('array', self.dtype(d, env) if d is not None else None, bool(re.search(r"C_CONTIGUOUS|CONTIGUOUS|'C'|C_CONTIG|CARRAY", text)))
        if last == 'POINTER':
            t = self.ev(e.args[0], env) if e.args else None
            if isinstance(t, tuple) and t[0] == 'ctype':
                return ('pointer', t[1])
            if isinstance(t, tuple) and t[0] == 'pointer':
                return ('pointer', (t[1] or '?') + ' *')
            return ('pointer', None)
        if last in ('byref', 'pointer', 'addressof'):
            t = self.ev(e.args[0], env) if e.args else None
            return ('cnew', t[1]) if isinstance(t, tuple) and t[0] == 'cvalue' else None
        if not (q.startswith('numpy.') or q.startswith('np.')):
            if last in ('float', 'int') and '.' not in q:
                for a in e.args:
                    self.ev(a, env)
                return (last,)
            if last == 'len':
                return ('int',)
            return NotImplemented
        args = [self.ev(a, env) for a in e.args]
        a0 = args[0] if args else None
        if isinstance(a0, tuple) and a0[0] == 'param':
            a0 = Arr('caller', 'caller')
        if last in FRESH:
            d = self.kw(e, 'dtype', {'full': 2, 'arange': 3, 'linspace': 99}.get(last, 1))
            return Arr(self.dtype(d, env) if d is not None else ('double' if last in ('empty', 'zeros', 'ones') else None), True, FRESH[last])
        if last in LIKE:
            d = self.kw(e, 'dtype', 1)
            src = a0.dtype if isinstance(a0, Arr) else None
            return Arr(self.dtype(d, env) if d is not None else src, True, LIKE[last])
        if last in ('array', 'ascontiguousarray', 'asarray', 'asfarray', 'copy', 'require', 'atleast_1d', 'asanyarray'):
            d = self.kw(e, 'dtype', None if last in ('copy', 'atleast_1d') else 1)
            src = a0 if isinstance(a0, Arr) else Arr(None, None)
            dt = self.dtype(d, env) if d is not None else src.dtype
            cp = self.kw(e, 'copy')
            od = self.kw(e, 'order')
            order = od.value if isinstance(od, ast.Constant) else None
            if last == 'ascontiguousarray' or order == 'C':
                contig = True
            elif last in ('array', 'copy') and not (isinstance(cp, ast.Constant) and cp.value is False):
                contig = True
            elif last == 'require' and re.search(r"'C", ast.unparse(e)):
                contig = True
            else:
                contig = src.contig if src.contig is True else 'caller' if src.contig == 'caller' else None
            return Arr(dt, contig, src.init)
        if last == 'copyto' and isinstance(args[0], Arr):
            args[0].init = True
            return None
        for a in args:
            if isinstance(a, Arr) and self.kw(e, 'out') is None:
                pass
        out = self.kw(e, 'out')
        if out is not None:
            v = self.ev(out, env)
            if isinstance(v, Arr):
                v.init = True
        return None

    # ---- a call of a C function
    READS = {'fit': ('x', 'vals_true'), 'init_bath': (), 'eval_delta': ('x',), 'eval_ddelta': ('x',), 'eval_chi2': ('x',), 'eval_dchi2': ('x',)}

    def ccall(self, e, v, env):
        kind, name = v[1], v[2]
        d = self.c.prototype(name)
        label = f'{self.rel} {self.fn} {name}'
        vals = [self.ev(a, env) for a in e.args]
        if d is None or any(isinstance(a, ast.Starred) for a in e.args) or e.keywords:
            self.ctx.undecided_(label, 'arguments not resolved')
            return None
        if len(vals) != len(d.types):
            self.ctx.violated('called with another number of arguments', label, self.where(e), f'{len(vals)} arguments; defined as {d.text()}')
            return None
        at = self.argtypes.get(name, (None, None))[0]
        ok, sure = True, True

        def bad(rule, i, text):
            nonlocal ok
            ok = False
            self.ctx.violated(rule, f'{label} argument {d.names[i]}', self.where(e.args[i]), text)
        for i, (a, want) in enumerate(zip(vals, d.types)):
            if isinstance(a, tuple) and a[0] == 'param':
                a = Arr('caller', 'caller') if want.endswith('*') else None
            el = want[:-1].strip() if want.endswith('*') else None
            t = at[i] if at and i < len(at) else None
            if el is not None:
                arr = None
                if isinstance(a, Arr):
                    arr = a
                    if kind == 'cffi':
                        bad('an array is passed without its address', i, 'cffi takes a pointer')
                        continue
                    if t is not None and t[0] == 'array':
                        if t[1] is not None and a.dtype not in (None, 'caller', t[1]):
                            bad('an array of another element type is passed', i, f'{a.dtype}, C expects {el}')
                            continue
                        if a.contig in (False, 'caller') and not t[2]:
                            bad('the array passed may be strided', i, 'neither copied to contiguous memory nor required to be contiguous')
                            continue
                        sure &= a.contig is True or t[2]
                    elif at is None:
                        bad('an array is passed without its address', i, f'{name} has no argument types')
                        continue
                elif isinstance(a, tuple) and a[0] == 'cptr':
                    arr = a[2]
                    if a[1] is not None and a[1] != el:
                        bad('a pointer to another type is passed', i, f'{a[1]} *, C expects {want}')
                        continue
                    if isinstance(arr, Arr):
                        if arr.dtype not in (None, el):
                            bad('an array of another element type is passed', i,
                                'the element type is the caller\'s' if arr.dtype == 'caller' else f'{arr.dtype}, C expects {el}')
                            continue
                        if arr.contig in (False, 'caller'):
                            bad('the array passed may be strided', i, 'not copied to contiguous memory')
                            continue
                        sure &= arr.dtype is not None and arr.contig is True
                        if a[3] == 'nothing':
                            bad('the array passed is not kept alive', i, 'nothing refers to the array when its address is used')
                            continue
                        if isinstance(a[3], tuple) and self.version.get(a[3][0], 0) != a[3][1] and not any(
                                x is arr for x in env.values()):
                            bad('the array passed is not kept alive', i, f'{a[3][0]} was given another value before the call')
                            continue
                    else:
                        sure = False
                elif isinstance(a, tuple) and a[0] == 'cnew':
                    if a[1] != el:
                        bad('a pointer to another type is passed', i, f'{a[1]} *, C expects {want}')
                        continue
                elif isinstance(a, tuple) and a[0] in ('cvalue', 'int', 'float'):
                    bad('a number is passed for a pointer', i, f'C expects {want}')
                    continue
                elif isinstance(a, tuple) and a[0] == 'address':
                    sure = False
                else:
                    sure = False
                if isinstance(arr, Arr):
                    if arr.init is False and key(d.names[i]) in {key(x) for x in self.READS.get(name, ())}:
                        bad('an array without values is passed', i, f'{name} reads it')
                        continue
                    if name not in self.READS or key(d.names[i]) not in {key(x) for x in self.READS[name]} or True:
                        arr.init = True
            else:
                if isinstance(a, tuple) and a[0] == 'cvalue' and a[1] != want:
                    bad('a number of another type is passed', i, f'{a[1]}, C expects {want}')
                    continue
                if isinstance(a, (Arr,)) or (isinstance(a, tuple) and a[0] in ('cptr', 'cnew', 'address')):
                    bad('a pointer is passed for a number', i, f'C expects {want}')
                    continue
                if want in ('int', 'long') and isinstance(a, tuple) and (a[0] == 'float' or (a[0] == 'const' and isinstance(a[1], float))):
                    bad('a number of another type is passed', i, f'floating point, C expects {want}')
                    continue
        # arguments called like another parameter
        texts = [names_of(a) for a in e.args]
        ks = [key(n) for n in d.names]
        for i, t in enumerate(texts):
            for j, k in enumerate(ks):
                if i < j and k in t and ks[i] not in t and ks[i] in texts[j] and k not in texts[j] and d.types[i] == d.types[j]:
                    bad('arguments are in another order than the parameters', i, f'{d.names[i]} and {d.names[j]} are exchanged')
        need = self.c.needs(name)[0]
        for g in sorted(need):
            if g not in self.set_ and '*' not in self.set_:
                ok = False
                self.ctx.violated('a C variable is read before it is set', f'{label} variable {g}', self.where(e),
                                  f'{name} reads {g}, which this function has not set')
        self.calls += 1
        if ok:
            (self.ctx.holds(f'call {label}', d.text()) if sure else self.ctx.undecided_(f'call {label}', 'an argument was not resolved'))
        return None


def names_of(e):
    return {key(n.id) for n in ast.walk(e) if isinstance(n, ast.Name)}


def merge(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a is b:
            return a
        return Arr(a.dtype if a.dtype == b.dtype else None, a.contig if a.contig == b.contig else None, True if a.init and b.init else None)
    return a if a == b else None


# ------------------------------------------------------------------ cffi
def cdefs(ctx, c):
    """name -> Decl declared to cffi"""
    out = {}
    import subprocess
    for m in ctx.C.prog.modules.values():
        if m.kind == 'c' or 'cdef' not in m.source or not m.relpath.endswith('.py'):
            continue
        consts = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                consts[n.targets[0].id] = n.value
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'cdef' and n.args:
                text = string(n.args[0], consts)
                if text is None:
                    ctx.undecided_(f'{m.relpath} cdef', 'the text is not a constant')
                    continue
                try:
                    t = front_c.dump(os.path.join(c.repo, 'x.c'), text)
                except (SyntaxError, ValueError, OSError) as e:
                    ctx.undecided_(f'{m.relpath} cdef', f'not read by clang: {str(e)[:120]}')
                    continue
                front_c.locate(t, '<stdin>')
                for d in t.get('inner', ()):
                    where = f'{m.path}:{n.lineno}'
                    if d.get('kind') == 'FunctionDecl' and not d.get('isImplicit'):
                        ps = [p for p in d.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
                        qt = d['type']['qualType']
                        e = Decl(d['name'], where, norm(qt[:qt.index('(')]), [norm(typ(p)) for p in ps], [p.get('name') or '' for p in ps], False)
                        out[d['name']] = e
                        full = c.prototype(d['name'])
                        if full is None:
                            ctx.violated('declares a C function that is not defined', f'{m.relpath} {d["name"]}', where,
                                         f'no C source defines {d["name"]}')
                        else:
                            compare(ctx, full, e, f'{m.relpath} {d["name"]}', 'cdef')
                    elif d.get('kind') == 'VarDecl':
                        vs = c.vars.get(d['name'])
                        out[d['name']] = None
                        if vs and norm(typ(d)) not in {x[0] for x in vs.values()}:
                            ctx.violated('a C variable is declared with another type than it has', f'{m.relpath} {d["name"]}', where,
                                         f'{norm(typ(d))}, defined as {next(iter(vs.values()))[0]}')
    return out


def string(e, consts):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Name) and e.id in consts:
        return string(consts[e.id], {k: v for k, v in consts.items() if k != e.id})
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = string(e.left, consts), string(e.right, consts)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant) and e.func.attr == 'join':
        if e.args and isinstance(e.args[0], (ast.List, ast.Tuple)):
            ps = [string(x, consts) for x in e.args[0].elts]
            return None if None in ps else e.func.value.value.join(ps)
    return None


# ------------------------------------------------------------------ Cython
class Pyx:
    def __init__(self, ctx, c, m):
        self.ctx, self.c, self.m, self.rel = ctx, c, m, m.relpath
        self.alias, self.structs, self.externs, self.header = {}, {}, {}, set()

    def where(self, ln):
        return f'{self.m.path}:{ln}'

    def lines(self):
        """logical lines: (number, indent, text)"""
        out, cur, depth, start = [], '', 0, 0
        quote = None
        for no, raw in enumerate(self.m.source.split('\n'), 1):
            text, i = '', 0
            while i < len(raw):
                if quote:
                    j = raw.find(quote, i)
                    if j < 0:
                        i = len(raw)
                        continue
                    i, quote = j + len(quote), None
                    continue
                if raw.startswith(('"""', "'''"), i):
                    quote = raw[i:i + 3]
                    i += 3
                    continue
                ch = raw[i]
                if ch in '"\'':
                    j = raw.find(ch, i + 1)
                    j = len(raw) if j < 0 else j + 1
                    text += raw[i:j]
                    i = j
                    continue
                if ch == '#':
                    break
                depth += ch in '([{'
                depth -= ch in ')]}'
                text += ch
                i += 1
            if not cur:
                start = no
            cur += (' ' if cur else '') + (text if not cur else text.strip())
            if depth > 0 or cur.rstrip().endswith('\\'):
                cur = cur.rstrip().rstrip('\\')
                continue
            if cur.strip():
                out.append((start, len(cur) - len(cur.lstrip()), cur.strip()))
            cur, depth = '', 0
        return out

    def proto(self, text, ln, header=False):
        m = re.match(r'^(.*?)(\w+)\s*\((.*)\)\s*(.*)$', text)
        if not m:
            return
        types, names = [], []
        for p in split(m.group(3)):
            q = re.match(r'^(.*?)([A-Za-z_]\w*)?\s*((?:\[[^\]]*\])*)$', p)
            if '(*' in p:
                types.append(None)
                names.append('')
                continue
            base, nm, arr = q.group(1).strip(), q.group(2) or '', q.group(3)
            if not base:
                base, nm = nm, ''
            types.append(norm(base + arr, self.alias))
            names.append(nm)
        self.externs[m.group(2)] = Decl(m.group(2), self.where(ln), norm(m.group(1), self.alias), types, names, False)

    def run(self):
        ls = self.lines()
        funcs = []
        i = 0
        while i < len(ls):
            no, ind, t = ls[i]
            m = re.match(r'^(?:cdef|ctypedef)\s+(?:packed\s+)?struct\s+(\w+)\s*:$', t)
            if m:
                i = self.struct(ls, i, m.group(1), False)
                continue
            m = re.match(r'^cdef\s+extern\s+from\b(.*):$', t)
            if m:
                j = i + 1
                while j < len(ls) and ls[j][1] > ind:
                    u = re.sub(r'^(cdef|ctypedef)\s+', '', ls[j][2])
                    s = re.match(r'^struct\s+(\w+)\s*:$', u)
                    if s:
                        j = self.struct(ls, j, s.group(1), True)
                        continue
                    if ls[j][2].startswith('ctypedef'):
                        self.typedef(ls[j][2])
                    elif '(' in u:
                        self.proto(u, ls[j][0], True)
                    j += 1
                i = j
                continue
            m = re.match(r'^cdef\s+extern\s+(.*\(.*)$', t)
            if m:
                self.proto(m.group(1), no)
            elif t.startswith('ctypedef'):
                self.typedef(t)
            elif re.match(r'^(def|cdef|cpdef)\b.*\)\s*[^=]*:$', t) and re.search(r'\w+\s*\(', t):
                j = i + 1
                while j < len(ls) and ls[j][1] > ind:
                    j += 1
                funcs.append((no, t, ls[i + 1:j]))
            i += 1
        self.same = {}
        for name, d in self.externs.items():
            full = self.c.prototype(name)
            if full is not None and len(full.types) == len(d.types):
                for i, (a, b) in enumerate(zip(full.types, d.types)):
                    if a and b and a != b and a.rstrip(' *') in self.c.structs and b.rstrip(' *') in self.structs and a.count('*') == b.count('*'):
                        self.same[b.rstrip(' *')] = a.rstrip(' *')
                        d.types[i] = a
        for name, (ln, fields, header) in self.structs.items():
            self.check_struct(name, ln, fields, header)
        for name, d in self.externs.items():
            full = self.c.prototype(name)
            if full is not None:
                compare(self.ctx, full, d, f'{self.rel} {name}', 'extern')
        for no, head, body in funcs:
            self.function(no, head, body)

    def typedef(self, t):
        m = re.match(r'^ctypedef\s+(.*?)\s*(\w+)$', t)
        if m and 'struct' not in t:
            self.alias[m.group(2)] = m.group(1).strip()

    def struct(self, ls, i, name, header):
        ind = ls[i][1]
        j, fields = i + 1, []
        while j < len(ls) and ls[j][1] > ind:
            t = ls[j][2]
            m = re.match(r'^(.*?)\b(\w+(?:\s*,\s*\**\s*\w+)*)$', t)
            if m:
                base = m.group(1).strip()
                for q, f in enumerate(m.group(2).split(',')):
                    f = f.strip()
                    stars = f.count('*')
                    b = base if not q else base.rstrip('* ')
                    fields.append((f.lstrip('* '), norm(b + '*' * stars, self.alias)))
            j += 1
        self.structs[name] = (ls[i][0], fields, header)
        return j

    def check_struct(self, name, ln, fields, header):
        s = self.c.structs.get(self.same.get(name, name))
        if s is None:
            # the structure the extern functions take
            return
        want, label = s[1], f'{self.rel} struct {name}'
        if header:
            d = dict(want)
            for f, t in fields:
                if f not in d:
                    self.ctx.violated('a structure is declared with other fields than it has', label, self.where(ln), f'C has no field {f}')
                    return
                if d[f] != t:
                    self.ctx.violated('a structure is declared with other fields than it has', label, self.where(ln), f'{f} is {t}, in C {d[f]}')
                    return
        elif fields != want:
            k = next((i for i, (a, b) in enumerate(zip(fields, want)) if a != b), min(len(fields), len(want)))
            show = lambda l: f'{l[k][1]} {l[k][0]}' if k < len(l) else 'nothing'
            same = [t for _, t in fields] == [t for _, t in want] and sorted(f for f, _ in fields) != sorted(f for f, _ in want)
            if same:
                self.ctx.holds(label, 'same layout, other field names')
                return
            self.ctx.violated('a structure is declared with other fields than it has', label, self.where(ln),
                              f'field {k + 1} is {show(fields)}, in C {show(want)}')
            return
        self.ctx.holds(label, f'{len(fields)} fields in order')

    BUF = re.compile(r"^np\.ndarray\s*\[(.*)\]$")

    def buffer(self, t):
        """(element type, address may be taken) of a declared array type, or None"""
        m = re.match(r'^(?:\w+\.)?ndarray\s*\[(.*)\]$', t)
        if m:
            el, mode = None, None
            for i, p in enumerate(split(m.group(1))):
                q = re.match(r'^(\w+)\s*=\s*(.*)$', p)
                if not q:
                    if not i:
                        el = p
                elif q.group(1) == 'dtype':
                    el = q.group(2)
                elif q.group(1) == 'mode':
                    mode = q.group(2).strip('"\' ')
            return norm(el or 'object', self.alias), mode in ('c', 'fortran')
        m = re.match(r'^([\w\. ]+?)\s*\[([^\]]*:[^\]]*)\]$', t)
        if m:
            return norm(m.group(1), self.alias), '::1' in m.group(2).replace(' ', '')
        return None

    def function(self, no, head, body):
        m = re.match(r'^(?:def|cdef|cpdef)\s+(.*?)(\w+)\s*\((.*)\)\s*[^()]*:$', head)
        if not m:
            return
        fn = m.group(2)
        bufs, plain = {}, {}

        def declare(t, n):
            b = self.buffer(t)
            if b is not None:
                bufs[n] = b
            elif t:
                plain[n] = norm(t, self.alias)
        for p in split(m.group(3)):
            p = re.sub(r'\s+(not|or)\s+None$', '', p.split('=')[0].strip() if '[' not in p else re.sub(r'\s*=\s*[^\]]*$', '', p))
            q = re.match(r'^(.*?[\s\]\*])(\w+)$', p)
            if q:
                declare(q.group(1).strip(), q.group(2))
        fields = {}
        for ln, ind, t in body:
            q = re.match(r'^cdef\s+(.*)$', t)
            if q:
                rest = q.group(1)
                d = re.match(r'^((?:unsigned\s+)?[\w\.]+(?:\s*\[.*?\](?=\s*\w))?)\s*(\**\s*\w+.*)$', rest)
                if d:
                    for part in split(d.group(2)):
                        nm = part.split('=')[0].strip()
                        declare(d.group(1).strip() + '*' * nm.count('*'), nm.lstrip('* '))
            # fields of structures
            for q in re.finditer(r'(?<![\w.=!<>])(\w+)\.(\w+)\s*=(?!=)\s*([^=].*)$', t):
                if plain.get(q.group(1)) in self.structs:
                    s = self.structs[plain[q.group(1)]][1]
                    fields.setdefault(q.group(1), set()).add(q.group(2))
                    ft = dict(s).get(q.group(2))
                    self.address(q.group(3).strip(), ft, bufs, f'{self.rel} {fn} {q.group(1)}.{q.group(2)}', ln)
            for st in [n for n, ty in plain.items() if ty in self.structs]:
                if re.search(r'(?<![\w.])' + st + r'\s*=(?!=)', t):
                    fields.setdefault(st, set()).add('*')
                for q in re.finditer(r'(\w+)\s*\([^()]*&\s*' + st + r'\b', t):
                    if q.group(1) not in self.externs:
                        fields.setdefault(st, set()).add('*')
            for name, d in self.externs.items():
                for args in calls(t, name):
                    if t.startswith('cdef extern'):
                        continue
                    full = self.c.prototype(name) or d
                    label = f'{self.rel} {fn} {name}'
                    if len(args) != len(d.types):
                        self.ctx.violated('called with another number of arguments', label, self.where(ln), f'{len(args)} arguments; {full.text()}')
                        continue
                    ok = True
                    for a, want, pn in zip(args, d.types, full.names):
                        q = re.match(r'^&\s*(\w+)$', a)
                        if q and plain.get(q.group(1)) in self.structs:
                            need = self.fields_read(name, pn)
                            have = fields.get(q.group(1), set())
                            miss = sorted(need - have)
                            if miss and '*' not in have:
                                ok = False
                                self.ctx.violated('a field C reads is not set', label, self.where(ln), f'{q.group(1)}.{miss[0]}')
                            continue
                        if want and want.endswith('*'):
                            ok &= self.address(a, want, bufs, f'{label} argument {pn}', ln, quiet=True)
                    if ok:
                        self.ctx.holds(f'call {label}', full.text())
            # any other address of an array element
            for q in re.finditer(r'&\s*(\w+)\s*\[', t):
                b = bufs.get(q.group(1))
                if b is not None and not b[1]:
                    self.ctx.violated('the address of an array that may be strided is taken', f'{self.rel} {fn} {q.group(1)}', self.where(ln),
                                      'declared without mode="c"')
            for q in re.finditer(r'<\s*([\w\. ]+?)\s*\*\s*>\s*(\w+)\.data\b', t):
                b = bufs.get(q.group(2))
                if b is not None and not b[1]:
                    self.ctx.violated('the address of an array that may be strided is taken', f'{self.rel} {fn} {q.group(2)}', self.where(ln),
                                      'declared without mode="c"')
                if b is not None and norm(q.group(1), self.alias) != b[0]:
                    self.ctx.violated('a pointer to another type is passed', f'{self.rel} {fn} {q.group(2)}', self.where(ln),
                                      f'{b[0]} read as {norm(q.group(1), self.alias)}')
        for n, (el, c) in bufs.items():
            if c:
                self.ctx.holds(f'buffer {self.rel} {fn} {n}', f'{el}, contiguous')

    def address(self, a, want, bufs, label, ln, quiet=False):
        q = re.match(r'^&\s*(\w+)\s*\[', a)
        if not q or want is None:
            return True
        b = bufs.get(q.group(1))
        if b is None:
            return True
        if not b[1]:
            return False                      # reported where the address is taken
        if b[0] + ' *' != want:
            self.ctx.violated('a pointer to another type is passed', label, self.where(ln), f'{b[0]} *, C expects {want}')
            return False
        return True

    def fields_read(self, name, param):
        """fields of a structure argument a C function reads"""
        d = self.c.definition(name)
        out = set()
        if d is None:
            return out

        def go(n):
            if n.get('kind') == 'MemberExpr':
                out.add(n.get('name'))
            for c in n.get('inner', ()):
                if c.get('kind'):
                    go(c)
        go(d.node)
        return out


def calls(t, name):
    for q in re.finditer(r'(?<![\w.])' + name + r'\s*\(', t):
        i, depth = q.end(), 1
        while i < len(t) and depth:
            depth += t[i] in '([{'
            depth -= t[i] in ')]}'
            i += 1
        yield split(t[q.end():i - 1])


def run(ctx):
    c = C(ctx)
    for p, why in c.bad:
        ctx.undecided_(f'file {os.path.relpath(p, c.repo)}', why[:120])
    if ctx.repo is not None:
        declarations(ctx, c)
    cffi = cdefs(ctx, c)
    for m in sorted(ctx.C.prog.modules.values(), key=lambda m: m.relpath):
        if m.kind == 'c':
            continue
        if m.relpath.endswith('.pyx'):
            Pyx(ctx, c, m).run()
        elif 'ctypes' in m.source or '_fit' in m.source or 'cffi' in m.source:
            Module(ctx, c, m, cffi).run()
