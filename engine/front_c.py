"""C sources -> the same Python syntax trees the rest of the engine reads.

clang prints its own type-checked tree (macros expanded, implicit conversions explicit); each function is rewritten:
a global variable g becomes _G.g, a pointer p+k becomes p[k:], *p becomes p[0], a scalar whose address is taken is a
one-element array, malloc(n*sizeof(T)) is np.empty(n), counted loops are `for i in range`.  Heap releases and messages
to the terminal have no value and are dropped here (C26 looks at the former).  A function that uses something else is
left out (its name is kept with the reason)."""
import ast, json, subprocess, os

MATH = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'csqrt': 'sqrt', 'cexp': 'exp',
        'tanh': 'tanh', 'cosh': 'cosh', 'sinh': 'sinh', 'atan2': 'arctan2', 'conj': 'conj', 'floor': 'floor', 'ceil': 'ceil'}
DROP = {'free', 'printf', 'fprintf', 'fflush', 'puts', 'putchar'}
BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor,
       '<<': ast.LShift, '>>': ast.RShift}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}


class NotInSubset(Exception):
    pass


def dump(path, source=None):
    """clang's tree of one file (the text may come from memory)"""
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-I' + os.path.dirname(path)]
    if source is None:
        r = subprocess.run(cmd + [path], capture_output=True, text=True)
    else:
        r = subprocess.run(cmd + ['-x', 'c', '-'], input=source, capture_output=True, text=True)
    if not r.stdout:
        raise SyntaxError(r.stderr[:300])
    if r.returncode:
        raise SyntaxError(r.stderr[:300])
    return json.loads(r.stdout)


def locate(tree, path):
    """file and line of every node (clang prints them only when they change)"""
    cur = {'file': path, 'line': 0}

    def one(l):
        if not isinstance(l, dict):
            return
        if 'spellingLoc' in l or 'expansionLoc' in l:
            one(l.get('spellingLoc'))
            one(l.get('expansionLoc'))
            return
        if 'file' in l:
            cur['file'] = l['file']
        if 'line' in l:
            cur['line'] = l['line']

    stack = [tree]

    def go(n):
        if 'loc' in n:
            one(n['loc'])
            f, ln = cur['file'], cur['line']
        else:
            f = None
        r = n.get('range')
        if r:
            one(r.get('begin'))
            if f is None:
                f, ln = cur['file'], cur['line']
            one(r.get('end'))
        n['_file'], n['_line'] = f or cur['file'], ln if f else cur['line']
        for c in n.get('inner', ()):
            go(c)
    go(tree)
    return tree


def own(tree, path):
    """the declarations of the file itself"""
    locate(tree, path)
    return [n for n in tree.get('inner', ()) if n.get('_file') in (path, '<stdin>')]


def body_of(fn):
    return next((c for c in fn.get('inner', ()) if c.get('kind') == 'CompoundStmt'), None)


def typ(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def is_ptr(t):
    t = t.strip()
    return t.endswith('*') or t.endswith(']') or t.endswith('*const') or '(*' in t


def is_int(t):
    t = t.replace('const', '').replace('unsigned', 'int').strip()
    return t in ('int', 'long', 'int int', 'short', 'char', 'size_t', 'csi', 'int32_t', 'long long', 'int long', 'int char', '__int32_t')


class Names:
    """names assigned or whose address is taken in a function"""

    def __init__(self, fn):
        self.addr, self.locals, used = set(), {}, {}
        self.walk(fn)
        for i, nm in list(self.locals.items()):       # inner variables that shadow outer ones get names of their own
            used[nm] = used.get(nm, 0) + 1
            if used[nm] > 1:
                self.locals[i] = f'{nm}__{used[nm]}'

    def walk(self, n):
        k = n.get('kind')
        if k in ('VarDecl', 'ParmVarDecl'):
            self.locals[n['id']] = n['name']
        if k == 'UnaryOperator' and n.get('opcode') == '&':
            d = strip(n['inner'][0])
            if d.get('kind') == 'DeclRefExpr' and not is_ptr(typ(d)) and '(' not in typ(d):
                self.addr.add(d['referencedDecl']['id'])
        for c in n.get('inner', ()):
            self.walk(c)


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


class Function:
    def __init__(self, fn, glob, funcs):
        self.fn, self.glob, self.funcs = fn, glob, funcs
        self.n = Names(fn)
        self.pre = None           # statements to put before the current one
        self.cond = 0
        self.line = fn['_line']

    # ---- helpers
    def at(self, node, n=None):
        ln = (n or {}).get('_line') or self.line
        for x in ast.walk(node):
            if not hasattr(x, 'lineno'):
                x.lineno = x.end_lineno = ln
                x.col_offset = x.end_col_offset = 0
        return node

    def name(self, s):
        return ast.Name(s, ast.Load())

    def np(self, f, *args):
        return ast.Call(ast.Attribute(self.name('np'), f, ast.Load()), list(args), [])

    # ---- function
    def convert(self):
        fn = self.fn
        ps = [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        args = ast.arguments([], [ast.arg(self.n.locals[p['id']]) for p in ps], None, [], [], None, [])
        body = []
        for p in ps:
            if p['id'] in self.n.addr:
                raise NotInSubset('address of a parameter')
        body += self.block(body_of(fn))
        d = ast.FunctionDef(fn['name'], args, body or [ast.Pass()], [], None)
        d.type_params = []
        return self.at(ast.fix_missing_locations(self.at(d, fn)))

    def block(self, n):
        out = []
        for c in n.get('inner', ()) if n.get('kind') == 'CompoundStmt' else [n]:
            out += self.stmt(c)
        return out or [self.at(ast.Pass(), n)]

    def stmt(self, n):
        old, self.pre = self.pre, []
        self.line = n.get('_line') or self.line
        ss = getattr(self, 's_' + n['kind'], self.s_expr)(n)
        out = self.pre + ss
        self.pre = old
        for s in out:
            self.at(s, n)
        return out

    def s_CompoundStmt(self, n):
        out = []
        for c in n.get('inner', ()):
            out += self.stmt(c)
        return out

    def s_NullStmt(self, n):
        return []

    def s_DeclStmt(self, n):
        out = []
        for v in n.get('inner', ()):
            if v.get('kind') != 'VarDecl':
                raise NotInSubset(v.get('kind'))
            t = typ(v)
            nm = self.n.locals[v['id']]
            tgt = ast.Name(nm, ast.Store())
            init = v['inner'][0] if v.get('init') and v.get('inner') else None
            if t.rstrip().endswith(']'):
                if init is not None:
                    raise NotInSubset('array initialiser')
                k = int(t[t.index('[') + 1:t.index(']')])
                out.append(ast.Assign([tgt], self.np('empty', ast.Constant(k))))
            elif v['id'] in self.n.addr:
                out.append(ast.Assign([tgt], self.np('empty', ast.Constant(1))))
                if init is not None:
                    e = self.expr(init)
                    out += self.flush()
                    out.append(ast.Assign([ast.Subscript(self.name(nm), ast.Constant(0), ast.Store())], e))
            elif init is not None:
                e = self.expr(init)
                out += self.flush()
                out.append(ast.Assign([tgt], e))
        return out

    def flush(self):
        p, self.pre = self.pre, []
        return p

    def s_ReturnStmt(self, n):
        return [ast.Return(self.expr(n['inner'][0]) if n.get('inner') else None)]

    def s_IfStmt(self, n):
        c = n['inner']
        t = self.truth(c[0])
        return [ast.If(t, self.block(c[1]), self.block(c[2]) if len(c) > 2 else [])]

    def s_BreakStmt(self, n):
        return [ast.Break()]

    def s_ContinueStmt(self, n):
        return [ast.Continue()]

    def s_WhileStmt(self, n):
        c = n['inner']
        t = self.truth(c[0])
        if self.pre:
            raise NotInSubset('assignment in a loop condition')
        return [ast.While(t, self.block(c[1]), [])]

    def s_DoStmt(self, n):
        c = n['inner']
        body = self.block(c[0])
        t = self.truth(c[1])
        if self.pre or has(c[0], ('ContinueStmt',)):
            raise NotInSubset('do loop')
        return [ast.While(ast.Constant(True), body + [ast.If(ast.UnaryOp(ast.Not(), t), [ast.Break()], [])], [])]

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        rng = self.counted(init, cond, inc, body)
        if rng:
            var, lo, hi, step, declared, updated = rng
            args = [lo, hi] if step is None else [lo, hi, step]
            loop = ast.For(ast.Name(var, ast.Store()), ast.Call(self.name('range'), args, []), self.block(body), [])
            return self.flush() + [loop]
        out = self.stmt(init) if init.get('kind') else []
        t = self.truth(cond) if cond.get('kind') else ast.Constant(True)
        if self.pre or has(body, ('ContinueStmt',)):
            raise NotInSubset('for loop')
        return out + [ast.While(t, self.block(body) + (self.stmt(inc) if inc.get('kind') else []), [])]

    def counted(self, init, cond, inc, body):
        """for (i=a; i<b; i++) with an untouched counter and bound"""
        declared = False
        if init.get('kind') == 'DeclStmt' and len(init['inner']) == 1 and init['inner'][0].get('init'):
            v = init['inner'][0]
            var, vid, lo, declared = v['name'], v['id'], v['inner'][0], True
        elif init.get('kind') == 'BinaryOperator' and init['opcode'] == '=' and strip(init['inner'][0]).get('kind') == 'DeclRefExpr':
            d = strip(init['inner'][0])
            var, vid, lo = d['referencedDecl']['name'], d['referencedDecl']['id'], init['inner'][1]
            if vid not in self.n.locals:
                return None
        else:
            return None
        if cond.get('kind') != 'BinaryOperator' or cond['opcode'] not in ('<', '<=', '>', '>=') or not isvar(cond['inner'][0], vid):
            return None
        step = increment(inc, vid)
        if step is None or (step > 0) != (cond['opcode'] in ('<', '<=')):
            return None
        mod = assigned_ids(body)
        if vid in mod or not declared and self.read_after(vid, body):
            return None
        bound = cond['inner'][1]
        if any(i in mod for i in var_ids(bound)) or has(bound, ('CallExpr', 'ArraySubscriptExpr', 'MemberExpr')) and self.bound_moves(bound, mod, body):
            return None
        hi = self.expr(bound)
        if cond['opcode'] == '<=':
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        elif cond['opcode'] == '>=':
            hi = ast.BinOp(hi, ast.Sub(), ast.Constant(1))
        return self.n.locals[vid], self.expr(lo), hi, None if step == 1 else ast.Constant(step), declared, False

    def bound_moves(self, bound, mod, body):
        """the body may change what the bound reads: only stores through other element types are known not to"""
        if has(body, ('CallExpr',)):
            return True
        bt = {typ(x) for x in find(bound, ('ArraySubscriptExpr', 'MemberExpr'))}
        st = {typ(strip(x['inner'][0])) for x in find(body, ('BinaryOperator', 'CompoundAssignOperator'))
              if x.get('opcode', '').endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>=')
              and strip(x['inner'][0]).get('kind') != 'DeclRefExpr'}
        return bool({norm(t) for t in bt} & {norm(t) for t in st})

    def read_after(self, vid, body):
        """is the counter read outside of this loop before it is set again?  (approximation: every other use is in a
        loop header of its own that sets it first)"""
        return used_outside(self.fn, vid)

    # ---- expression statements
    def s_expr(self, n):
        n0 = n
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.get('inner'):
            n = n['inner'][0]
        k = n.get('kind')
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return self.assignment(n)[0]
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return self.s_expr(n['inner'][0]) + self.s_expr(n['inner'][1])
        if k == 'CompoundAssignOperator':
            return self.compound(n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return [ast.AugAssign(self.lvalue(n['inner'][0]), ast.Add() if n['opcode'] == '++' else ast.Sub(), ast.Constant(1))]
        if k == 'CallExpr':
            d = strip(n['inner'][0])
            if d.get('kind') == 'DeclRefExpr' and d['referencedDecl'].get('name') in DROP:
                return []
            return [ast.Expr(self.expr(n))]
        if k in ('DeclRefExpr', 'IntegerLiteral', None):
            return []
        if k == 'ConditionalOperator':
            a, b, c = n['inner']
            return [ast.If(self.truth(a), self.block(b), self.block(c))]
        raise NotInSubset(f'statement {k}')

    def assignment(self, n):
        """statements, and the target read back"""
        lhs, rhs = n['inner']
        r = strip(rhs)
        chain = []
        if r.get('kind') == 'BinaryOperator' and r['opcode'] == '=':
            chain, val = self.assignment(r)
        else:
            val = self.expr(rhs)
        val = self.convert_value(val, rhs, lhs)
        pre = self.flush()
        return chain + pre + [ast.Assign([self.lvalue(lhs)], val)], self.rvalue(lhs)

    def convert_value(self, v, rhs, lhs):
        return v

    def compound(self, n):
        lhs, rhs = n['inner']
        op = n['opcode'][:-1]
        if is_ptr(typ(lhs)):
            raise NotInSubset('pointer step')
        o = BIN[op]()
        if op == '/' and is_int(typ(lhs)) and is_int(typ(strip_conv(rhs))):
            o = ast.FloorDiv()
        elif is_int(typ(lhs)) and not is_int(typ(strip_conv(rhs))):
            raise NotInSubset('truncating update')
        return [ast.AugAssign(self.lvalue(lhs), o, self.expr(rhs))]

    # ---- places
    def lvalue(self, n):
        e = self.rvalue(n)
        for x in (e,):
            x.ctx = ast.Store()
        return e

    def rvalue(self, n):
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                if d['id'] in self.n.locals:
                    nm = self.n.locals[d['id']]
                    if d['id'] in self.n.addr:
                        return ast.Subscript(self.name(nm), ast.Constant(0), ast.Load())
                    return self.name(nm)
                if d['id'] in self.glob:
                    return self.expr(self.glob[d['id']])
                return ast.Attribute(self.name('_G'), d['name'], ast.Load())
            return self.name(d['name'])
        if k == 'ArraySubscriptExpr':
            return self.element(self.expr(n['inner'][0]), self.expr(n['inner'][1]))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            if '(' in typ(n) and not is_ptr(typ(n)):          # *func
                return self.expr(n['inner'][0])
            return self.element(self.expr(n['inner'][0]), ast.Constant(0))
        if k == 'MemberExpr':
            return ast.Attribute(self.expr(n['inner'][0]), n['name'], ast.Load())
        raise NotInSubset(f'place {k}')

    def element(self, base, idx):
        if isinstance(base, ast.Subscript) and isinstance(base.slice, ast.Slice) and base.slice.upper is None and base.slice.step is None:
            lo = base.slice.lower
            if isinstance(idx, ast.Constant) and idx.value == 0:
                return ast.Subscript(base.value, lo, ast.Load())
            if lo is not None:
                return ast.Subscript(base.value, ast.BinOp(lo, ast.Add(), idx), ast.Load())
        return ast.Subscript(base, idx, ast.Load())

    # ---- values
    def truth(self, n):
        s = strip(n)
        if is_ptr(typ(s)):
            return ast.Compare(self.expr(n), [ast.IsNot()], [ast.Constant(None)])
        return self.expr(n)

    def expr(self, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + str(k), None)
        if m is None:
            raise NotInSubset(f'expression {k}')
        return self.at(m(n), n)

    def e_ParenExpr(self, n):
        return self.expr(n['inner'][0])

    e_ConstantExpr = e_ParenExpr

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        s = n['inner'][0]
        if ck == 'FloatingToIntegral':
            return ast.Call(self.name('int'), [self.expr(s)], [])
        if ck == 'FloatingComplexToReal':
            return ast.Attribute(self.expr(s), 'real', ast.Load())
        if ck == 'NullToPointer':
            return ast.Constant(None)
        if ck == 'ArrayToPointerDecay' and strip(s).get('kind') == 'StringLiteral':
            return ast.Constant('text')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(s)
        return self.expr(s)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def e_IntegerLiteral(self, n):
        return ast.Constant(int(n['value']))

    def e_FloatingLiteral(self, n):
        v = float(n['value'])
        if abs(v - 3.141592653589793) < 1e-15:
            return ast.Attribute(self.name('np'), 'pi', ast.Load())
        return ast.Constant(v)

    def e_ImaginaryLiteral(self, n):
        c = n['inner'][0]
        return ast.Constant(complex(0, float(c['value'])))

    def e_CharacterLiteral(self, n):
        return ast.Constant(int(n['value']))

    def e_StringLiteral(self, n):
        return ast.Constant('text')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = (n.get('argType') or {}).get('qualType')
        if t is None:
            t = typ(n['inner'][0])
        return ast.Call(self.name('_sizeof'), [ast.Constant(t)], [])

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            raise NotInSubset('enum')
        return self.rvalue(n)

    def e_ArraySubscriptExpr(self, n):
        return self.rvalue(n)

    def e_MemberExpr(self, n):
        return self.rvalue(n)

    def e_UnaryOperator(self, n):
        o, s = n['opcode'], n['inner'][0]
        if o == '-':
            return ast.UnaryOp(ast.USub(), self.expr(s))
        if o == '+':
            return self.expr(s)
        if o == '!':
            if is_ptr(typ(strip(s))):
                return ast.Compare(self.expr(s), [ast.Is()], [ast.Constant(None)])
            return ast.UnaryOp(ast.Not(), self.truth(s))
        if o == '~':
            return ast.UnaryOp(ast.Invert(), self.expr(s))
        if o == '*':
            return self.rvalue(n)
        if o == '__extension__':
            return self.expr(s)
        if o == '&':
            p = strip(s)
            if p.get('kind') == 'ArraySubscriptExpr':
                return self.offset(self.expr(p['inner'][0]), self.expr(p['inner'][1]))
            if p.get('kind') == 'DeclRefExpr':
                d = p['referencedDecl']
                return self.name(self.n.locals[d['id']]) if d['id'] in self.n.locals else self.rvalue(p)
            if p.get('kind') == 'UnaryOperator' and p['opcode'] == '*':
                return self.expr(p['inner'][0])
            raise NotInSubset('address')
        if o in ('++', '--'):
            if self.cond:
                raise NotInSubset('conditional side effect')
            st = self.at(ast.AugAssign(self.lvalue(s), ast.Add() if o == '++' else ast.Sub(), ast.Constant(1)), n)
            if n.get('isPostfix'):
                raise NotInSubset('post-increment in an expression')
            self.pre.append(st)
            return self.rvalue(s)
        raise NotInSubset(f'operator {o}')

    def offset(self, base, k):
        if isinstance(k, ast.Constant) and k.value == 0:
            return base
        if isinstance(base, ast.Subscript) and isinstance(base.slice, ast.Slice) and base.slice.upper is None and base.slice.lower is not None:
            return ast.Subscript(base.value, ast.Slice(ast.BinOp(base.slice.lower, ast.Add(), k), None, None), ast.Load())
        return ast.Subscript(base, ast.Slice(k, None, None), ast.Load())

    def e_BinaryOperator(self, n):
        o = n['opcode']
        a, b = n['inner']
        if o == '=':
            if self.cond:
                raise NotInSubset('conditional side effect')
            ss, v = self.assignment(n)
            self.pre += [self.at(s, n) for s in ss]
            return v
        if o == ',':
            if self.cond:
                ss = self.s_expr(a)
                if ss:
                    raise NotInSubset('conditional side effect')
            else:
                self.pre += [self.at(s, n) for s in self.s_expr(a)]
            return self.expr(b)
        if o in ('&&', '||'):
            x = self.truth(a)
            self.cond += 1
            y = self.truth(b)
            self.cond -= 1
            return ast.BoolOp(ast.And() if o == '&&' else ast.Or(), [x, y])
        if o in CMP:
            x, y = self.expr(a), self.expr(b)
            if isinstance(y, ast.Constant) and y.value is None:
                return ast.Compare(x, [ast.Is() if o == '==' else ast.IsNot()], [y])
            return ast.Compare(x, [CMP[o]()], [y])
        pa, pb = is_ptr(typ(a)), is_ptr(typ(b))
        if pa or pb:
            if o == '+' and pa:
                return self.offset(self.expr(a), self.expr(b))
            if o == '+' and pb:
                return self.offset(self.expr(b), self.expr(a))
            raise NotInSubset('pointer arithmetic')
        if o == '/' and is_int(typ(n)):
            return ast.BinOp(self.expr(a), ast.FloorDiv(), self.expr(b))
        if o in BIN:
            return ast.BinOp(self.expr(a), BIN[o](), self.expr(b))
        raise NotInSubset(f'operator {o}')

    def e_CompoundAssignOperator(self, n):
        if self.cond:
            raise NotInSubset('conditional side effect')
        self.pre += [self.at(s, n) for s in self.compound(n)]
        return self.rvalue(n['inner'][0])

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        t = self.truth(c)
        # c ? A : B with equal reads of a macro temporary are ordinary conditionals
        self.cond += 1
        x, y = self.expr(a), self.expr(b)
        self.cond -= 1
        return ast.IfExp(t, x, y)

    def e_CallExpr(self, n):
        f = n['inner'][0]
        args = n['inner'][1:]
        d = strip(f)
        while d.get('kind') == 'UnaryOperator' and d['opcode'] == '*':
            d = strip(d['inner'][0])
        nm = d['referencedDecl']['name'] if d.get('kind') == 'DeclRefExpr' else None
        if nm and d['referencedDecl']['kind'] == 'FunctionDecl' and nm not in self.funcs:
            if nm in DROP:
                return ast.Constant(0)
            a = [self.expr(x) for x in args]
            if nm in ('pow', 'cpow', 'powf', 'powl'):
                return ast.BinOp(a[0], ast.Pow(), a[1])
            if nm in ('fabs', 'cabs', 'abs', 'labs', 'fabsf'):
                return ast.Call(self.name('abs'), a, [])
            if nm in ('fmax', 'fmin'):
                return ast.Call(self.name('max' if nm == 'fmax' else 'min'), a, [])
            if nm in ('creal', 'cimag'):
                return ast.Attribute(a[0], 'real' if nm == 'creal' else 'imag', ast.Load())
            if nm in MATH:
                return self.np(MATH[nm], *a)
            if nm in ('malloc', 'calloc'):
                return self.alloc(nm, args, a)
            if nm == 'exit':
                return ast.Call(ast.Attribute(self.name('_C'), 'exit', ast.Load()), a, [])
            return ast.Call(ast.Attribute(self.name('_C'), nm, ast.Load()), a, [])
        return ast.Call(self.expr(d) if nm is None else self.rvalue(d), [self.expr(x) for x in args], [])

    def alloc(self, nm, args, a):
        if nm == 'calloc':
            return self.np('zeros', a[0])
        e = a[0]
        sizes = [x for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == '_sizeof']
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and len(sizes) == 1:
            if e.right is sizes[0]:
                return self.np('empty', e.left)
            if e.left is sizes[0]:
                return self.np('empty', e.right)
        return self.np('empty', e)


def has(n, kinds):
    return n.get('kind') in kinds or any(has(c, kinds) for c in n.get('inner', ()))


def find(n, kinds):
    if n.get('kind') in kinds:
        yield n
    for c in n.get('inner', ()):
        yield from find(c, kinds)


def norm(t):
    return t.replace('const', '').replace(' ', '').replace('int32_t', 'int').replace('csi', 'int')


def strip_conv(n):
    while n.get('kind') in ('ParenExpr', 'ConstantExpr') or n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue', 'NoOp'):
        n = n['inner'][0]
    return n


def isvar(n, vid):
    n = strip(n)
    return n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['id'] == vid


def var_ids(n):
    return {x['referencedDecl']['id'] for x in find(n, ('DeclRefExpr',))}


def increment(n, vid):
    n = strip(n)
    if n.get('kind') == 'UnaryOperator' and n['opcode'] in ('++', '--') and isvar(n['inner'][0], vid):
        return 1 if n['opcode'] == '++' else -1
    if n.get('kind') == 'CompoundAssignOperator' and n['opcode'] in ('+=', '-=') and isvar(n['inner'][0], vid):
        c = strip(n['inner'][1])
        if c.get('kind') == 'IntegerLiteral':
            return int(c['value']) * (1 if n['opcode'] == '+=' else -1)
    if n.get('kind') == 'BinaryOperator' and n['opcode'] == '=' and isvar(n['inner'][0], vid):
        r = strip(n['inner'][1])
        if r.get('kind') == 'BinaryOperator' and r['opcode'] in '+-' and isvar(r['inner'][0], vid):
            c = strip(r['inner'][1])
            if c.get('kind') == 'IntegerLiteral':
                return int(c['value']) * (1 if r['opcode'] == '+' else -1)
    return None


def assigned_ids(n):
    out = set()
    for x in find(n, ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator')):
        o = x.get('opcode', '')
        if x['kind'] == 'BinaryOperator' and o == '=' or x['kind'] == 'CompoundAssignOperator' or \
           x['kind'] == 'UnaryOperator' and o in ('++', '--', '&'):
            t = strip(x['inner'][0])
            if t.get('kind') == 'DeclRefExpr':
                out.add(t['referencedDecl']['id'])
    return out


def used_outside(fn, vid):
    """is the counter used anywhere that is not inside a for statement that starts by setting it?"""
    def go(n):
        if n.get('kind') == 'ForStmt':
            init = n['inner'][0]
            if init.get('kind') == 'BinaryOperator' and init.get('opcode') == '=' and isvar(init['inner'][0], vid):
                return go(init['inner'][1])
        if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['id'] == vid:
            return True
        return any(go(c) for c in n.get('inner', ()))
    return go(body_of(fn))


def constants(decls):
    """file-level scalars with a literal value that nothing in the file changes"""
    mod = set()
    for d in decls:
        if d.get('kind') == 'FunctionDecl' and body_of(d):
            mod |= assigned_ids(d)
    out = {}
    for d in decls:
        if d.get('kind') == 'VarDecl' and d.get('init') and d['id'] not in mod and d.get('storageClass') != 'extern':
            e = strip(d['inner'][0])
            if e.get('kind') in ('IntegerLiteral', 'FloatingLiteral') or e.get('kind') == 'UnaryOperator' and e['opcode'] == '-':
                out[d['id']] = d['inner'][0]
    return out


def translate(path, decls, known=()):
    """Python source tree, {function left out: reason}"""
    funcs = {d['name'] for d in decls if d.get('kind') == 'FunctionDecl' and body_of(d)} | set(known)
    glob = constants(decls)
    body, out = [], {}
    body.append(ast.fix_missing_locations(ast.Import([ast.alias('numpy', 'np')])))
    for d in decls:
        if d.get('kind') == 'FunctionDecl' and body_of(d):
            try:
                body.append(Function(d, glob, funcs).convert())
            except NotInSubset as e:
                out[d['name']] = str(e)
            except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                out[d['name']] = f'{type(e).__name__} {e}'
    return ast.fix_missing_locations(ast.Module(body, [])), out


def load(files):
    """{path: source or None} -> {path: (declarations or the reason there are none)}"""
    from concurrent.futures import ThreadPoolExecutor

    def one(p):
        try:
            return own(dump(p, files[p]), p)
        except (SyntaxError, ValueError, OSError) as e:
            return str(e)
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(files, ex.map(one, list(files))))
