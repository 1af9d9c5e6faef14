"""C29: names, attributes and signatures exist.

Everything is decided on the syntax trees and Python's own scope analysis (symtable); nothing is imported."""
import ast
import builtins
import json
import pathlib
import symtable
import sys
from .program import Class, Func, Record, _is_main

EXTERNAL = json.loads((pathlib.Path(__file__).parent / 'data' / 'external.json').read_text())
KNOWN_ATTRS = set(EXTERNAL.pop('*attributes'))
STD = set(sys.stdlib_module_names)
DECLARED = {'numpy', 'scipy', 'numba', 'mpmath', 'ase', 'setuptools', 'Cython', 'cython'}
FEATURE = {'mpi4py', 'matplotlib', 'sympy', 'cffi', 'edpyt', 'edpyt_backend'}
# compiled artefacts of the two packages
COMPILED = {'edpyt._psparse', 'edpyt._continued_fraction', 'edpyt_backend._fit'}
MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__annotations__'}
ANY = object()


def main_names(tree):
    out = set()
    for st in tree.body:
        if isinstance(st, ast.If) and _is_main(st.test):
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


class Check:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.C.prog
        self.mods = {n: m for n, m in self.prog.modules.items() if not n.startswith('c:')}
        self.n = {}
        self.bad = 0
        self.collect()

    # ------------------------------------------------------------ universe
    def collect(self):
        self.defs = {}            # method name -> Funcs of all classes defining it
        self.fields = set()       # attribute names some object of the package has
        self.classes = []
        self.assigned = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.assigned.add(n.attr)
                elif isinstance(n, ast.Call):
                    f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                    if f in ('setattr', 'namedtuple', 'make_dataclass', 'SimpleNamespace', 'recarray'):
                        for c in ast.walk(n):
                            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                                self.fields |= set(c.value.replace(',', ' ').split())
                            elif isinstance(c, ast.keyword) and c.arg:
                                self.fields.add(c.arg)
                elif isinstance(n, ast.ClassDef):
                    c = Class(m, n)
                    self.classes.append(c)
                    for k, f in c.methods.items():
                        self.defs.setdefault(k, []).append((c, f))
                    for s in n.body:
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []):
                            if isinstance(t, ast.Name):
                                self.fields.add(t.id)
                            elif isinstance(t, ast.Attribute):
                                self.fields.add(t.attr)
                elif isinstance(n, (ast.FunctionDef,)):
                    self.fields.add(n.name)
            self.fields |= set(m.names)
        self.fields |= self.assigned | set(self.defs)
        # names the C structures have
        for rel, ds in self.prog.cdecls.items():
            for d in ds:
                for x in d.get('inner', []) or []:
                    if x.get('kind') == 'FieldDecl':
                        self.fields.add(x.get('name'))
        for m in self.mods.values():
            if m.kind == 'pyx':
                self.fields |= {'p', 'i', 'x', 'm', 'n', 'nz', 'nzmax'}

    def fail(self, rule, construct, m, node, text):
        self.bad += 1
        self.ctx.violated(rule, construct, f'{m.path}:{getattr(node, "lineno", 0)}', text)

    def ok(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1

    # ------------------------------------------------------------- imports
    def exported(self, mod):
        """names of a package module, or ANY"""
        mod = self.prog.EXT_ALIASES.get(mod, mod)
        m = self.mods.get(mod)
        if m is None:
            return ANY
        names = set(m.names) | MODULE_NAMES
        for st, mm, n, a in m.imports:
            if n == '*':
                sub = self.exported(mm)
                if sub is ANY:
                    return ANY
                names |= sub
        if '__getattr__' in names:
            return ANY
        return names

    def inside(self, mod):
        return mod.split('.')[0] in ('edpyt', 'edpyt_backend')

    def module_exists(self, mod):
        mod = self.prog.EXT_ALIASES.get(mod, mod)
        if mod in self.mods or mod in COMPILED or mod.startswith('edpyt_backend._fit'):
            return True
        if mod in ('edpyt', 'edpyt_backend'):
            return True
        d = pathlib.Path(self.prog.root, *mod.split('.'))
        return d.is_dir()

    def imports(self, m):
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and any(h.type is None or any(x in ast.unparse(h.type) for x in ('ImportError', 'ModuleNotFound', 'Exception'))
                                              for h in n.handlers):
                for b in n.body:
                    guarded |= {id(x) for x in ast.walk(b)}
        for n in ast.walk(m.tree):
            if id(n) in guarded:
                continue
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.one_import(m, n, a.name, None)
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in n.names:
                    self.one_import(m, n, mod, a.name)

    def one_import(self, m, node, mod, name):
        top = mod.split('.')[0]
        if self.inside(mod):
            if not self.module_exists(mod):
                return self.fail('imported module does not exist', f'{m.name} {mod}', m, node, f'import of {mod}')
            if name and name != '*' and mod not in COMPILED and not mod.startswith('edpyt_backend._fit'):
                ex = self.exported(mod)
                if ex is not ANY and name not in ex and not self.module_exists(f'{mod}.{name}'):
                    return self.fail('imported name does not exist', f'{m.name} {mod}.{name}', m, node, f'{mod} defines no {name}')
            return self.ok('imports')
        if top not in STD | DECLARED | FEATURE and not (m.relpath.startswith('edpyt_backend') and self.module_exists(f'edpyt_backend.{top}')):
            return self.fail('undeclared dependency', f'{m.name} {top}', m, node, f'{mod} is neither a declared dependency nor one a feature documents')
        if name and name != '*' and mod in EXTERNAL and name not in EXTERNAL[mod]:
            return self.fail('imported name does not exist', f'{m.name} {mod}.{name}', m, node, f'{mod} defines no {name}')
        self.ok('imports')

    # --------------------------------------------------------------- names
    def names(self, m):
        if m.kind == 'pyx':
            return
        try:
            top = symtable.symtable(m.source, m.path, 'exec')
        except SyntaxError:
            return
        known = set(m.names) | MODULE_NAMES | set(dir(builtins)) | {'WindowsError'}
        for st, mm, n, a in m.imports:
            if n == '*':
                ex = self.exported(mm) if self.inside(mm) else ANY
                if ex is ANY:
                    return
                known |= ex
        script = main_names(m.tree)
        # names bound anywhere at module level (loops, with, try, del) and by `global`
        for s in top.get_symbols():
            if (s.is_assigned() or s.is_imported() or s.is_namespace()) and s.get_name() not in script:
                known.add(s.get_name())

        def glob(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    known.add(s.get_name())
            for c in t.get_children():
                glob(c)
        glob(top)
        used = {}

        def scan(t):
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global():
                    used.setdefault(s.get_name(), set()).add(t.get_lineno())
            for c in t.get_children():
                scan(c)
        for c in top.get_children():
            scan(c)
        skip = {id(x) for st in m.tree.body if isinstance(st, ast.If) and _is_main(st.test) for x in ast.walk(st)}
        loads = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in skip:
                loads.setdefault(n.id, n)
        for nm in sorted(used):
            if nm in known or nm.startswith('_SymtableFake') or nm.startswith('.'):
                self.ok('names')
                continue
            if nm not in loads:
                continue
            self.fail('undefined name', f'{m.name} {nm}', m, loads[nm], f'{nm} is defined nowhere in the module')
        # module level statements
        for s in top.get_symbols():
            nm = s.get_name()
            if s.is_referenced() and nm not in known and nm not in script and nm in loads:
                self.fail('undefined name', f'{m.name} {nm}', m, loads[nm], f'{nm} is defined nowhere in the module')
        # imports that can fail and whose name is then missing: bound in the handler too, or used under a test -- not judged

    # ---------------------------------------------------------- attributes
    def attributes(self, m):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                continue
            r = self.module_of(m, n.value)
            if r is not None:
                mod, shadow = r
                if shadow:
                    continue
                if self.inside(mod):
                    if mod in COMPILED or mod.startswith('edpyt_backend._fit'):
                        mod = self.prog.EXT_ALIASES.get(mod)
                        if mod is None:
                            continue
                    ex = self.exported(mod)
                    if ex is not ANY and n.attr not in ex and not self.module_exists(f'{mod}.{n.attr}'):
                        self.fail('module has no such name', f'{m.name} {mod}.{n.attr}', m, n, f'{mod} defines no {n.attr}')
                    else:
                        self.ok('attributes')
                elif mod in EXTERNAL:
                    if n.attr not in EXTERNAL[mod] and f'{mod}.{n.attr}' not in EXTERNAL:
                        self.fail('module has no such name', f'{m.name} {mod}.{n.attr}', m, n, f'{mod} defines no {n.attr}')
                    else:
                        self.ok('attributes')
                continue
            if n.attr in KNOWN_ATTRS or n.attr in self.fields:
                self.ok('attributes')
                continue
            if self.draws(m) or self.foreign(m, n.value):
                continue
            self.fail('attribute defined nowhere', f'{m.name} .{n.attr}', m, n,
                      f'no class of the package and no object of the libraries it works with has an attribute {n.attr}')

    def module_of(self, m, v):
        """(dotted module, shadowed by a local) when the expression names a module"""
        if isinstance(v, ast.Name):
            e = m.names.get(v.id)
            if e and e[0] == 'import' and e[2] is None:
                return e[1], v.id in self.locals_of(m)
            if e and e[0] == 'import':
                sub = f'{e[1]}.{e[2]}'
                r = self.prog.EXT_ALIASES.get(sub, sub)
                if r in self.mods and self.inside(sub) and e[2] not in self.mods.get(e[1], m).names:
                    return sub, v.id in self.locals_of(m)
                if sub in EXTERNAL and sub not in ('numpy.random',):
                    return sub, v.id in self.locals_of(m)
            return None
        if isinstance(v, ast.Attribute):
            r = self.module_of(m, v.value)
            if r:
                sub = f'{r[0]}.{v.attr}'
                if sub in EXTERNAL or sub in self.mods:
                    return sub, r[1]
        return None

    def locals_of(self, m):
        """names bound as parameters or locals anywhere in the module"""
        c = m.__dict__.get('_locals')
        if c is None:
            c = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.arg):
                    c.add(n.arg)
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            c.add(x.id)
            m.__dict__['_locals'] = c
        return c

    def draws(self, m):
        """plotting and structure modules work with objects whose attributes are not listed"""
        return any(mm.split('.')[0] in ('matplotlib', 'ase', 'sympy') for st, mm, n, a in m.imports) or any(
            isinstance(n, (ast.Import, ast.ImportFrom)) and (getattr(n, 'module', None) or n.names[0].name).split('.')[0] in ('matplotlib', 'ase', 'sympy')
            for n in ast.walk(m.tree)) or m.name in ('edpyt.cotools', 'edpyt.eshow')

    def foreign(self, m, v):
        """the object comes from a library whose names are not listed"""
        while isinstance(v, (ast.Attribute, ast.Call, ast.Subscript)):
            v = v.func if isinstance(v, ast.Call) else v.value
        if isinstance(v, ast.Name):
            e = m.names.get(v.id)
            if e and e[0] == 'import':
                return True
            # a local bound from a library call
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.For, ast.withitem, ast.NamedExpr)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.optional_vars] if isinstance(n, ast.withitem) else [n.target]
                    if any(isinstance(x, ast.Name) and x.id == v.id for t in tg if t is not None for x in ast.walk(t)):
                        val = n.iter if isinstance(n, ast.For) else n.context_expr if isinstance(n, ast.withitem) else n.value
                        for x in ast.walk(val):
                            if isinstance(x, (ast.Import, ast.ImportFrom)):
                                return True
                            if isinstance(x, ast.Name) and x.id != v.id:
                                ee = m.names.get(x.id)
                                if ee and ee[0] == 'import' and not self.inside(ee[1]) and ee[1].split('.')[0] != 'numpy':
                                    return True
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    if any((a.asname or a.name).split('.')[0] == v.id for a in n.names):
                        return True
        return False

    def self_attributes(self, m):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ClassDef):
                continue
            c = Class(m, n)
            mro, ext = self.mro(c)
            if ext or any(k in x.methods for x in mro for k in ('__getattr__', '__getattribute__', '__setattr__')):
                continue
            have = set()
            for x in mro + self.subclasses(c):
                have |= set(x.methods)
                for s in ast.walk(x.node):
                    if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                        have.add(s.attr)
                    elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'setattr' or isinstance(
                            s, ast.Attribute) and s.attr in ('__dict__', '__slots__'):
                        have = None
                        break
                    elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                        have.add(s.id)
                if have is None:
                    break
            if have is None:
                continue
            have |= set(dir(object)) | {'__dict__', '__module__', '__name__', '__annotations__'}
            for x in n.body:
                if not isinstance(x, ast.FunctionDef) or not x.args.args:
                    continue
                if any(ast.unparse(d) in ('staticmethod', 'classmethod') for d in x.decorator_list):
                    continue
                me = x.args.args[0].arg
                if x.name == '__new__':
                    continue
                for a in ast.walk(x):
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == me and isinstance(a.ctx, ast.Load):
                        # an attribute another module plants on the object
                        if a.attr in have or a.attr in self.planted():
                            self.ok('attributes of self')
                        else:
                            self.fail('attribute of self is never set', f'{m.name}.{n.name}.{a.attr}', m, a,
                                      f'neither {n.name} nor a base class sets or defines {a.attr}')

    def planted(self):
        """attributes assigned on objects other than self"""
        p = self.__dict__.get('_planted')
        if p is None:
            p = self._planted = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        p.add(n.attr)
        return p

    def mro(self, c, seen=None):
        seen = seen if seen is not None else []
        if any(x.qual == c.qual for x in seen):
            return seen, False
        seen.append(c)
        ext = False
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            B = self.prog.base_class(c, b)
            if B is None:
                ext = True
            else:
                ext |= self.mro(B, seen)[1]
        return seen, ext

    def subclasses(self, c):
        return [x for x in self.classes if x.qual != c.qual and any(y.qual == c.qual for y in self.mro(x)[0])]

    # --------------------------------------------------------------- calls
    def calls(self, m):
        for fn, cls, local in scopes(m.tree):
            for n in own_nodes(fn):
                if isinstance(n, ast.Call):
                    self.call(m, n, cls, local, fn)

    def call(self, m, n, cls, local, fn):
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in local:
                d = local[f.id]
                if d is not None and simple(d):
                    self.fits(m, n, d, 0, f.id)
                return
            t = self.target(m, f.id)
            if t is None:
                if f.id == 'partial' and n.args:
                    self.partial(m, n, cls, local)
                return
            if isinstance(t, Func):
                self.fits_func(m, n, t, 0)
            elif isinstance(t, Class):
                self.construct(m, n, t)
            elif isinstance(t, Record):
                self.record(m, n, t)
            return
        if isinstance(f, ast.Attribute):
            r = self.module_of(m, f.value)
            if r and not r[1] and self.inside(r[0]):
                t = self.target(self.mods.get(self.prog.EXT_ALIASES.get(r[0], r[0]), m), f.attr)
                if isinstance(t, Func):
                    self.fits_func(m, n, t, 0)
                elif isinstance(t, Class):
                    self.construct(m, n, t)
                elif isinstance(t, Record):
                    self.record(m, n, t)
                return
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and cls is not None:
                c = Class(m, cls)
                for b in c.bases:
                    B = self.prog.base_class(c, b)
                    if B:
                        t = self.prog.method(B, f.attr)
                        if t is not None:
                            self.fits_method(m, n, [t])
                        elif f.attr not in dir(object) and not self.mro(B)[1]:
                            self.fail('method does not exist', f'{m.name}.{cls.name} super().{f.attr}', m, n, f'{B.qual} has no {f.attr}')
                return
            if isinstance(f.value, ast.Name) and cls is not None and fn is not None and fn_self(fn) == f.value.id:
                c = Class(m, cls)
                t = self.prog.method(c, f.attr)
                if t is not None:
                    cand = [t] + [x.methods[f.attr] for x in self.subclasses(c) if f.attr in x.methods]
                    if not self.is_property(t) and f.attr not in self.assigned:
                        self.fits_method(m, n, cand)
                    return
            # the class itself:  Base.method(self, ...)
            if isinstance(f.value, ast.Name) and f.value.id not in local:
                t = self.target(m, f.value.id)
                if isinstance(t, Class):
                    k = self.prog.method(t, f.attr)
                    if k is not None and not self.is_property(k):
                        st = 'staticmethod' in decorators(k.node)
                        cm = 'classmethod' in decorators(k.node)
                        self.fits_func(m, n, k, 1 if cm else 0)
                    return
            # a method name only classes of the package have
            cand = self.defs.get(f.attr)
            if cand and f.attr not in KNOWN_ATTRS and f.attr not in self.assigned and not (r and not r[1]):
                fs = [x for c, x in cand]
                if not any(self.is_property(x) for x in fs) and not self.defined_elsewhere(f.attr):
                    self.fits_method(m, n, fs)

    def defined_elsewhere(self, name):
        """a module function or record field has the same name"""
        return any(name in m.names for m in self.mods.values()) or any(
            name in e[1].fields for m in self.mods.values() for e in m.names.values() if e[0] == 'record')

    def is_property(self, f):
        return bool({'property', 'cached_property', 'setter'} & decorators(f.node))

    def target(self, m, name):
        if name not in m.names:
            return None
        r = self.prog.resolve(m.name, name)
        if not r:
            return None
        if r[0] == 'func':
            return r[1]
        if r[0] == 'class':
            return r[1]
        if r[0] == 'record':
            return r[1]
        if r[0] == 'assign' and isinstance(r[2], ast.Lambda):
            return Func(r[1], r[2], name=name)
        return None

    def rebound(self, f):
        """the module binds this name more than once"""
        if isinstance(f.node, ast.Lambda):
            return False
        k = 0
        for n in f.module.tree.body:
            for x in ast.walk(n):
                if x is not f.node and isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == f.name and x in toplevel(f.module.tree):
                    k += 1
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == f.name and n in f.module.tree.body and isinstance(n, (ast.Assign, ast.If, ast.Try)):
                    k += 1
        return k > 0

    def fits_func(self, m, n, f, off):
        if isinstance(f.node, ast.FunctionDef) and (not simple(f.node) or self.rebound(f)):
            return
        self.fits(m, n, f.node, off, f.qual)

    def fits_method(self, m, n, fs):
        why = None
        for f in fs:
            d = decorators(f.node)
            if not simple(f.node, {'staticmethod', 'classmethod'}):
                return
            why = misfit(n, f.node, 0 if 'staticmethod' in d else 1)
            if why is None:
                return self.ok('calls')
        self.fail('call does not fit the signature', f'{m.name} -> {fs[0].qual}', m, n, why)

    def fits(self, m, n, node, off, name):
        why = misfit(n, node, off)
        if why:
            self.fail('call does not fit the signature', f'{m.name} -> {name}', m, n, why)
        else:
            self.ok('calls')

    def construct(self, m, n, c):
        if c.node.decorator_list or any(k.arg for k in c.node.keywords):
            return
        mro, ext = self.mro(c)
        for k in ('__new__', '__init__'):
            t = self.prog.method(c, k)
            if t is not None and not (ext and t.cls is None):
                if k == '__new__' and self.prog.method(c, '__init__') is not None and any(True for _ in ()):
                    continue
                if simple(t.node, {'staticmethod'}):
                    why = misfit(n, t.node, 1)
                    if why:
                        return self.fail('call does not fit the signature', f'{m.name} -> {c.qual}', m, n, why)
                    self.ok('calls')
        if not ext and self.prog.method(c, '__init__') is None and self.prog.method(c, '__new__') is None and (n.args or n.keywords):
            if not any(isinstance(a, ast.Starred) for a in n.args):
                self.fail('call does not fit the signature', f'{m.name} -> {c.qual}', m, n, f'{c.name} takes no arguments')

    def record(self, m, n, r):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        kw = [k.arg for k in n.keywords]
        given = list(r.fields[:len(n.args)]) + kw
        if len(n.args) > len(r.fields):
            return self.fail('call does not fit the signature', f'{m.name} -> {r.name}', m, n, f'{len(n.args)} values for the fields {r.fields}')
        for k in kw:
            if k not in r.fields:
                return self.fail('call does not fit the signature', f'{m.name} -> {r.name}', m, n, f'no field {k}')
        miss = [f for f in r.fields if f not in given and f not in r.defaults]
        if miss and not self.extended(r):
            return self.fail('call does not fit the signature', f'{m.name} -> {r.name}', m, n, f'fields not given: {miss}')
        self.ok('calls')

    def extended(self, r):
        """fields with defaults the reader of declarations does not know (defaults=, dataclass options)"""
        for n in ast.walk(r.module.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('namedtuple', 'make_dataclass') and n.args \
                    and isinstance(n.args[0], ast.Constant) and n.args[0].value == r.name:
                return bool(n.keywords)
        return True

    def partial(self, m, n, cls, local):
        a = n.args[0]
        t = None
        if isinstance(a, ast.Name):
            t = local[a.id] if a.id in local else self.target(m, a.id)
            if isinstance(t, Func):
                t = None if isinstance(t.node, ast.FunctionDef) and (not simple(t.node) or self.rebound(t)) else t.node
            elif isinstance(t, (Class, Record)):
                t = None
        off = 0
        if t is None or not isinstance(t, (ast.FunctionDef, ast.Lambda)):
            return
        g = ast.Call(func=a, args=n.args[1:], keywords=n.keywords)
        why = misfit(g, t, off, partial=True)
        if why:
            self.fail('call does not fit the signature', f'{m.name} -> partial {ast.unparse(a)}', m, n, why)
        else:
            self.ok('calls')

    # ------------------------------------------------------------ unpacking
    def unpacks(self, m):
        """a, b = f(...) where every return of f is a tuple display of another length"""
        for fn, cls, local in scopes(m.tree):
            for n in own_nodes(fn):
                if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List))
                        and isinstance(n.value, ast.Call)):
                    continue
                els = n.targets[0].elts
                if any(isinstance(x, ast.Starred) for x in els):
                    continue
                f = n.value.func
                t = None
                if isinstance(f, ast.Name):
                    t = local.get(f.id) if f.id in local else self.target(m, f.id)
                elif isinstance(f, ast.Attribute):
                    r = self.module_of(m, f.value)
                    if r and not r[1] and self.inside(r[0]):
                        t = self.target(self.mods.get(self.prog.EXT_ALIASES.get(r[0], r[0]), m), f.attr)
                if isinstance(t, Func):
                    if isinstance(t.node, ast.FunctionDef) and not simple(t.node):
                        continue
                    t = t.node
                if not isinstance(t, ast.FunctionDef):
                    continue
                rets = [x for x in own_nodes(t) if isinstance(x, ast.Return)]
                if not rets or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(t)):
                    continue
                lens = {len(x.value.elts) if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts)
                        else None for x in rets}
                if None in lens:
                    continue
                if len(els) not in lens:
                    self.fail('unpacking does not fit the result', f'{m.name} -> {ast.unparse(f)}', m, n,
                              f'{len(els)} targets for {sorted(lens)} values')
                else:
                    self.ok('unpacked results')


def toplevel(tree):
    return set(tree.body)


def decorators(fn):
    out = set()
    for d in getattr(fn, 'decorator_list', []):
        d = d.func if isinstance(d, ast.Call) else d
        out.add(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?')
    return out


PLAIN = {'njit', 'jit', 'boundscheck', 'wraparound', 'cdivision', 'lru_cache', 'cache', 'abstractmethod'}


def simple(fn, more=()):
    """the decorators leave the signature alone"""
    return decorators(fn) <= PLAIN | set(more)


def fn_self(fn):
    return fn.args.args[0].arg if isinstance(fn, ast.FunctionDef) and fn.args.args else None


def misfit(call, fn, off, partial=False):
    """why the arguments do not fit, or None"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred)) + off
    if npos > len(pos) and a.vararg is None:
        return f'{npos - off} positional arguments, {len(pos) - off} accepted'
    kwonly = [x.arg for x in a.kwonlyargs]
    names = set(pos[len(a.posonlyargs):]) | set(kwonly)
    given = set(pos[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names and a.kwarg is None:
            return f'no parameter {k.arg}'
        if k.arg in given and not partial and not star:
            return f'{k.arg} given twice'
        given.add(k.arg)
    if star or dstar or partial:
        return None
    need = pos[off:len(pos) - len(a.defaults)] if a.defaults else pos[off:]
    miss = [x for x in need if x not in given]
    miss += [x for x, d in zip(kwonly, a.kw_defaults) if d is None and x not in given]
    if miss:
        return f'missing {", ".join(miss)}'
    return None


def own_nodes(fn):
    """nodes of a scope without nested functions (lambdas and comprehensions stay)"""
    todo = list(ast.iter_child_nodes(fn)) if not isinstance(fn, ast.Module) else list(fn.body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += n.decorator_list
            if isinstance(n, ast.FunctionDef):
                todo += [d for d in n.args.defaults + n.args.kw_defaults if d is not None]
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def scopes(tree):
    """(function or module, enclosing class, local name -> the only nested definition it has or None)"""
    def bound(fn):
        out = {}
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out[x.arg] = None
        for n in own_nodes(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out[n.id] = None
            elif isinstance(n, ast.arg):
                out[n.arg] = None
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out[(x.asname or x.name).split('.')[0]] = None
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out[n.name] = None
        nested = {}
        for n in nested_defs(fn):
            nested.setdefault(n.name, []).append(n)
        for k, v in nested.items():
            out[k] = v[0] if len(v) == 1 and k not in out and isinstance(v[0], ast.FunctionDef) else None
        return out

    def nested_defs(fn):
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                yield n
                continue
            todo += [x for x in ast.iter_child_nodes(n) if isinstance(x, (ast.stmt, ast.ExceptHandler))]

    def go(node, cls, local):
        yield node, cls, local
        body = node.body
        todo = list(body)
        while todo:
            n = todo.pop(0)
            if isinstance(n, ast.FunctionDef):
                loc = dict(local)
                loc.update(bound(n))
                inner = cls if not isinstance(node, ast.Module) else None
                yield from go(n, inner, loc)
            elif isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.FunctionDef):
                        loc = dict(local)
                        loc.update(bound(s))
                        yield from go(s, n, loc)
            else:
                todo += [x for x in ast.iter_child_nodes(n) if isinstance(x, (ast.stmt, ast.ExceptHandler))]
    yield from go(tree, None, {})


def run(ctx):
    ck = Check(ctx)
    for rel, why in ck.prog.errors:
        if rel.endswith(('.py', '.pyx')):
            ctx.violated('file does not parse', rel, rel, why)
    for name, m in sorted(ck.mods.items()):
        before = ck.bad
        ck.n = {}
        for step in (ck.imports, ck.names, ck.attributes, ck.self_attributes, ck.calls, ck.unpacks):
            if m.kind == 'pyx' and step in (ck.names, ck.attributes, ck.self_attributes):
                continue
            try:
                step(m)
            except RecursionError:
                ctx.undecided_(f'{step.__name__} {name}', 'recursion')
        for k, v in sorted(ck.n.items()):
            ctx.holds(f'{k} {name}', f'{v} sites')
    ctx.notes.append(f'{len(ck.mods)} modules')
