"""Loading of the analysed tree: modules, names, functions, classes.

Python files are parsed with `ast`; Cython files are stripped of their type
declarations to Python syntax first.  Nothing is imported or executed.
"""
import ast
import builtins
import os
import re


class Func:
    def __init__(self, module, node, cls=None, name=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        return f'{self.module.name}.{self.cls.name + "." if self.cls else ""}{self.name}'

    @property
    def loc(self):
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<Func {self.qual}>'


class Class:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.props = set()
        self.assigns = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = Func(module, st, self)
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                        self.props.add((st.name, d.id))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
        self.bases = node.bases

    @property
    def qual(self):
        return f'{self.module.name}.{self.name}'


class Record:
    """namedtuple / make_dataclass"""
    def __init__(self, module, name, fields, defaults):
        self.module, self.name, self.fields, self.defaults = module, name, fields, defaults

    @property
    def qual(self):
        return f'{self.module.name}.{self.name}'


class Module:
    def __init__(self, prog, name, path, relpath, tree, source, kind='py'):
        self.prog = prog
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.source = source
        self.kind = kind
        self.names = {}       # name -> ('func',Func)|('class',Class)|('import',mod,attr)|('assign',expr)|('record',Record)
        self.stars = []       # modules of `from x import *`
        self.imports = []     # (node, module, attr, asname)
        self._collect(tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ('func', Func(self, st))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ('class', Class(self, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports.append((st, a.name, None, a.asname))
                    if a.asname:
                        self.names[a.asname] = ('import', a.name, None)
                    else:
                        self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = self.name.split('.')[:-st.level] if not self.path.endswith('__init__.py') else self.name.split('.')
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in st.names:
                    self.imports.append((st, mod, a.name, a.asname))
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.names[a.asname or a.name] = ('import', mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._assign(t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._assign(st.target, st.value)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                if isinstance(st, ast.If) and _is_main(st.test):
                    continue
                for f in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(st, f, []))
                for h in getattr(st, 'handlers', []):
                    self._collect(h.body)
                if isinstance(st, ast.For):
                    self._assign(st.target, None)
            elif isinstance(st, ast.AugAssign):
                self._assign(st.target, None)

    def _assign(self, t, value):
        if isinstance(t, ast.Name):
            r = self._record(t.id, value)
            if t.id in self.names and self.names[t.id][0] == 'assign':
                self.names[t.id] = ('multi', None)
            else:
                self.names[t.id] = ('record', r) if r else ('assign', value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        self._assign(e, value.elts[k])
                    else:
                        self.names[e.id] = ('assign', None)

    def _record(self, name, value):
        if isinstance(value, ast.Call):
            f = value.func
            fn = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if fn == 'namedtuple' and len(value.args) >= 2:
                try:
                    fl = ast.literal_eval(value.args[1])
                except Exception:
                    return None
                if isinstance(fl, str):
                    fl = fl.replace(',', ' ').split()
                return Record(self, name, list(fl), {})
            if fn == 'make_dataclass' and len(value.args) >= 2 and isinstance(value.args[1], (ast.List, ast.Tuple)):
                fields, defaults = [], {}
                for e in value.args[1].elts:
                    if isinstance(e, ast.Constant):
                        fields.append(e.value)
                    elif isinstance(e, (ast.Tuple, ast.List)):
                        nm = e.elts[0].value
                        fields.append(nm)
                        if len(e.elts) > 2 and isinstance(e.elts[2], ast.Call):
                            for kw in e.elts[2].keywords:
                                if kw.arg == 'default':
                                    defaults[nm] = kw.value
                return Record(self, name, fields, defaults)
        return None


def _is_main(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name)
            and test.left.id == '__name__')


class Program:
    def __init__(self, root, packages=('edpyt', 'edpyt_backend'), exclude=('tests', 'build'), overrides=None, with_c=False):
        self.root = root
        self.overrides = overrides or {}
        self.fixed = {}
        self.modules = {}
        self.errors = []
        self.cdecls = {}          # C file -> clang's declarations
        self.c_left_out = {}      # c:file.function -> why it has no summary
        self.c_where = {}         # C function -> module it is defined in
        if with_c:
            self.load_c(packages)
        for pkg in packages:
            base = os.path.join(root, pkg)
            if not os.path.isdir(base):
                continue
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d not in exclude and not d.startswith(('.', '__')))
                for f in sorted(fn):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    if f.startswith('test_') or f.startswith('_test'):
                        continue
                    if f.endswith('.py'):
                        self._load(p, rel, 'py')
                    elif f.endswith('.pyx'):
                        self._load(p, rel, 'pyx')

    def load_c(self, packages):
        from . import front_c
        files = {}
        for pkg in packages:
            base = os.path.join(self.root, pkg)
            for f in sorted(os.listdir(base)) if os.path.isdir(base) else ():
                p = os.path.join(base, f)
                rel = os.path.relpath(p, self.root)
                if f.endswith('.c') and not f.startswith(('_fit', 'test_')) and not os.path.exists(p[:-2] + '.pyx'):
                    files[p] = self.overrides.get(rel)
        tables = front_c.load(files)
        where = {}
        for p, ds in tables.items():
            if isinstance(ds, str):
                self.errors.append((os.path.relpath(p, self.root), ds))
                continue
            for d in ds:
                if d.get('kind') == 'FunctionDecl' and front_c.body_of(d):
                    where[d['name']] = 'c:' + os.path.basename(p)
        self.c_where = where
        for p, ds in tables.items():
            if isinstance(ds, str):
                continue
            rel, name = os.path.relpath(p, self.root), 'c:' + os.path.basename(p)
            self.cdecls[rel] = ds
            tree, left = front_c.translate(p, ds, where)
            for f, why in left.items():
                self.c_left_out[f'{name}.{f}'] = why
            m = self.modules[name] = Module(self, name, p, rel, tree, '', 'c')
            for f, o in where.items():
                m.names.setdefault(f, ('import', o, f))

    def _load(self, path, rel, kind):
        name = rel[:-3 if kind == 'py' else -4].replace(os.sep, '.')
        if name.endswith('.__init__'):
            name = name[:-9]
        if rel in self.overrides:
            src = self.overrides[rel]
        else:
            with open(path, encoding='utf-8', errors='replace') as fh:
                src = fh.read()
        text = src
        if kind == 'pyx':
            text = pyx_to_py(src)
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(text)
        except SyntaxError as e:
            self.errors.append((rel, str(e)))
            return
        m = self.modules[name] = Module(self, name, path, rel, tree, src, 'pyx' if rel.endswith('.pyx') else 'py')
        if rel.endswith('.pyx'):
            for fn in pyx_externs(src):
                if fn in self.c_where:
                    m.names.setdefault(fn, ('import', self.c_where[fn], fn))

    # ---- resolution
    EXT_ALIASES = {'edpyt._psparse': 'edpyt.psparse', 'edpyt._continued_fraction': 'edpyt.continued_fraction'}

    def resolve(self, modname, attr, seen=()):
        """('func',Func) | ('class',..) | ('record',..) | ('assign',Module,expr) | ('module',name) | ('ext',dotted) | None"""
        modname = self.EXT_ALIASES.get(modname, modname)
        if attr is None:
            return ('module', modname)
        m = self.modules.get(modname)
        if m is None:
            if modname.split('.')[0] in ('edpyt', 'edpyt_backend'):
                return ('ext', f'{modname}.{attr}')
            return ('ext', f'{modname}.{attr}')
        e = m.names.get(attr)
        if e is None:
            sub = self.EXT_ALIASES.get(f'{modname}.{attr}', f'{modname}.{attr}')
            if sub in self.modules:
                return ('module', sub)
            return self.star(m, attr, seen)
        if e[0] == 'import':
            if (modname, attr) in seen:
                return None
            return self.resolve(e[1], e[2], seen + ((modname, attr),))
        if e[0] in ('assign', 'multi'):
            return ('assign', m, e[1], attr)
        return e

    def star(self, m, attr, seen):
        """a name that `from x import *` brings in"""
        if attr.startswith('_') or (m.name, attr) in seen:
            return None
        for src in reversed(m.stars):
            src = self.EXT_ALIASES.get(src, src)
            k = self.modules.get(src)
            if k is None:
                if not hasattr(builtins, attr):
                    return ('ext', f'{src}.{attr}')
                continue
            a = k.names.get('__all__')
            if a is not None and a[0] == 'assign':
                try:
                    if attr not in ast.literal_eval(a[1]):
                        continue
                except ValueError:
                    pass
            r = self.resolve(src, attr, seen + ((m.name, attr),))
            if r is not None and r[0] != 'module':
                return r
        return None

    def find(self, qual):
        """'edpyt.mod.func' or 'edpyt.mod.Class.method' -> Func / Class / None"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            mod = self.EXT_ALIASES.get(mod, mod)
            if mod in self.modules:
                r = self.resolve(mod, parts[k])
                if r is None:
                    return None
                if r[0] == 'func' and len(parts) == k + 1:
                    return r[1]
                if r[0] == 'class':
                    if len(parts) == k + 1:
                        return r[1]
                    return self.method(r[1], parts[k + 1])
                if r[0] == 'assign' and len(parts) == k + 1 and isinstance(r[2], ast.Lambda):
                    return Func(r[1], r[2], name=parts[k])
                if r[0] == 'assign' and len(parts) == k + 1:
                    return ('assign', r[1], r[2])
                if r[0] == 'record':
                    return r[1]
                return None
        return None

    def method(self, cls, name, seen=None):
        seen = seen or set()
        if cls.qual in seen:
            return None
        seen.add(cls.qual)
        if name in cls.methods:
            return cls.methods[name]
        for b in cls.bases:
            c = self.base_class(cls, b)
            if c:
                r = self.method(c, name, seen)
                if r:
                    return r
        return None

    def base_class(self, cls, b):
        if isinstance(b, ast.Name):
            r = self.resolve(cls.module.name, b.id)
            if r and r[0] == 'class':
                return r[1]
        return None


# ------------------------------------------------------------------- Cython
_CTYPE = (r'(?:unsigned\s+)?(?:int|double|float|long|complex|bint|char|size_t|Py_ssize_t|ptrdiff_t|csi|cs|void|'
          r'object|np\.\w+_t|np\.ndarray\s*\[[^\]]*\]|np\.ndarray|[A-Za-z_]\w*\s*\[[^\]]*\])')


def pyx_externs(src):
    """names of the C functions a Cython file declares"""
    out, inside = [], None
    for ln in src.split('\n'):
        st = ln.strip()
        ind = len(ln) - len(ln.lstrip())
        if inside is not None and st and not st.startswith('#') and ind <= inside:
            inside = None
        if st.startswith('cdef extern'):
            m = re.match(r'cdef extern\s+(?!from)[\w\s\*]*?(\w+)\s*\(', st)
            if m:
                out.append(m.group(1))
            elif st.endswith(':'):
                inside = ind
        elif inside is not None:
            m = re.match(r'(?:cdef\s+)?[\w\s\*]*?(\w+)\s*\(', st)
            if m:
                out.append(m.group(1))
    return out


def pyx_to_py(src):
    """keep line numbers; drop C declarations"""
    out = []
    lines = src.split('\n')
    # join continued parentheses for cdef/def headers
    i = 0
    struct_indent = None
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if struct_indent is not None:
            if st == '' or st.startswith('#') or len(ind) > struct_indent:
                out.append('')
                i += 1
                continue
            struct_indent = None
        if st.startswith('ctypedef struct') or st.startswith('cdef struct') or (
                st.startswith('cdef extern from') and st.endswith(':')):
            struct_indent = len(ind)
            out.append('')
            i += 1
            continue
        if st.startswith(('cimport ', 'from ')) and ('cimport' in st):
            out.append('')
            i += 1
            continue
        if st.startswith('ctypedef') or st.startswith('cdef extern'):
            out.append('')
            i += 1
            continue
        if st.startswith(('def ', 'cdef ', 'cpdef ')):
            # gather logical line
            j = i
            buf = [ln]
            while buf_open(' '.join(buf)) and j + 1 < len(lines):
                j += 1
                buf.append(lines[j])
            logical = ' '.join(b.strip() for b in buf)
            extra = j - i
            if re.match(r'(?:def|cpdef|cdef)\b.*\)\s*(?:nogil|except[^:]*|noexcept)?\s*(?:nogil)?\s*:\s*(#.*)?$', logical):
                m = re.match(r'(?:def|cpdef|cdef)\s+(.*?)([A-Za-z_]\w*)\s*\((.*)\)\s*[^)]*:\s*(#.*)?$', logical)
                params = split_params(m.group(3))
                names = []
                for p in params:
                    p = p.replace('not None', '').strip()
                    if not p:
                        continue
                    dflt = None
                    if '=' in re.sub(r'\[[^\]]*\]', '', p):
                        k = _eqpos(p)
                        dflt = p[k + 1:].strip()
                        p = p[:k].strip()
                    nm = re.sub(r'\[[^\]]*\]', ' ', p).replace('*', ' ').split()[-1]
                    names.append(nm if dflt is None else f'{nm}={dflt}')
                out.append(f'{ind}def {m.group(2)}({", ".join(names)}):')
                out.extend([''] * extra)
                i = j + 1
                continue
            if logical.startswith('cdef'):
                decl = logical[4:].strip()
                decl = decl.split('#')[0].strip() if '#' in decl else decl
                m = re.match(r'(np\.ndarray\s*\[[^\]]*\]|[A-Za-z_][\w\.]*(?:\s+(?:int|long|double|complex))?(?:\s*\[[^\]]*\])?)\s*(.*)$', decl)
                rest = m.group(2) if m else ''
                stmts = []
                for part in split_params(rest):
                    if '=' in part:
                        k = _eqpos(part)
                        nm = part[:k].replace('*', '').strip()
                        stmts.append(f'{nm} = {part[k+1:].strip()}')
                    else:
                        nm = part.replace('*', '').strip()
                        if m and m.group(1) == 'cs':
                            stmts.append(f'{nm} = __cstruct__()')
                out.append(ind + ('; '.join(pyx_expr(s) for s in stmts) if stmts else 'pass'))
                out.extend([''] * extra)
                i = j + 1
                continue
        out.append(pyx_expr(ln))
        i += 1
    return '\n'.join(out)


def _eqpos(s):
    depth = 0
    for k, ch in enumerate(s):
        if ch in '([':
            depth += 1
        elif ch in ')]':
            depth -= 1
        elif ch == '=' and depth == 0:
            return k
    return -1


def buf_open(s):
    return s.count('(') > s.count(')') or s.count('[') > s.count(']')


def split_params(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def pyx_expr(ln):
    # &name[...]  ->  __addr__(name[...]) ; &name -> __addr__(name) ; <type>expr -> expr
    if ln.strip().startswith('#'):
        return ln
    ln = re.sub(r'<\s*[A-Za-z_][\w\. ]*\**\s*>\s*(?=[A-Za-z_(&])', '', ln)
    res = ''
    i = 0
    while i < len(ln):
        ch = ln[i]
        if ch == '&' and i + 1 < len(ln) and re.match(r'[A-Za-z_]', ln[i + 1]) and \
                re.search(r'(^|[=(,])\s*$', ln[:i]):
            j = i + 1
            while j < len(ln) and (ln[j].isalnum() or ln[j] in '_.'):
                j += 1
            while j < len(ln) and ln[j] == '[':
                d = 0
                while j < len(ln):
                    if ln[j] == '[':
                        d += 1
                    elif ln[j] == ']':
                        d -= 1
                        if d == 0:
                            j += 1
                            break
                    j += 1
            ref = ln[i + 1:j]
            one = re.match(r'([\w.]+)\[([^,\[\]:]+)\]$', ref)       # pointer to an element: the array from there on
            res += f'{one.group(1)}[{one.group(2)}:]' if one else f'__addr__({ref})'
            i = j
            continue
        res += ch
        i += 1
    return res
