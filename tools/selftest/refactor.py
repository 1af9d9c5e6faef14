"""Behaviour preserving rewrites of single functions, used to test that the
checks stay quiet (not run by any check)."""
import ast, copy, itertools


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def local_names(fn):
    a = fn.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: ps.add(a.vararg.arg)
    if a.kwarg: ps.add(a.kwarg.arg)
    st = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            st.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            st.add(x.name)
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            return ps, None
    return ps, st - ps


class Rename(ast.NodeTransformer):
    def __init__(self, mp): self.mp = mp
    def visit_Name(self, n):
        n.id = self.mp.get(n.id, n.id); return n
    def visit_FunctionDef(self, n):
        n.name = self.mp.get(n.name, n.name); self.generic_visit(n); return n


def blocks(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Lambda): continue
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def t_rename(fn, mod):
    ps, ls = local_names(fn)
    if not ls: return
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            ls -= {a.arg for a in x.args.args}
    Rename({x: x + '_r' for x in ls}).visit(fn)
    yield fn


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    flip = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in flip:
        return ast.Compare(t.left, [flip[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def t_invert_if(fn, mod):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = neg(n.test); n.body, n.orelse = n.orelse, n.body; ch = True
    if ch: yield fn


def t_invert_ifexp(fn, mod):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.IfExp):
            n.test = neg(n.test); n.body, n.orelse = n.orelse, n.body; ch = True
    if ch: yield fn


def t_guard_continue(fn, mod):
    """for ..: if c: A   ->  for ..: if not c: continue; A"""
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and len(n.body) >= 1 and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
            ch = True
    if ch: yield fn


def t_early_return(fn, mod):
    """if c: ..return A else: ..return B -> if c: return A ; B"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for k, st in enumerate(b):
            if isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                b[k:k + 1] = [ast.If(st.test, st.body, [])] + st.orelse
                ch = True; break
    if ch: yield fn


def t_single_return(fn, mod):
    """return expr -> r = expr; return r"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for k, st in enumerate(list(b)):
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, ast.Name):
                b[k:k + 1] = [ast.Assign([ast.Name('_res', ast.Store())], st.value, lineno=1), ast.Return(ast.Name('_res', ast.Load()))]
                ch = True; break
    if ch: yield fn


def own_exprs(st):
    """expressions evaluated exactly once before the statement's effect"""
    if isinstance(st, ast.Assign): return [('value', st.value)]
    if isinstance(st, ast.AugAssign): return []
    if isinstance(st, ast.Return) and st.value is not None: return [('value', st.value)]
    return []


def t_extract_temp(fn, mod):
    """pull sub-expressions of calls/binops out into temporaries"""
    cnt = itertools.count()
    ch = False
    for n, f, b in list(blocks(fn)):
        if isinstance(n, ast.ClassDef): continue
        out = []
        for st in b:
            for fld, e in own_exprs(st):
                # leftmost evaluated argument first: only extract a prefix of arguments
                if isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred) for a in e.args):
                    for k, a in enumerate(e.args):
                        if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute)):
                            t = f'_tmp{next(cnt)}'
                            out.append(ast.Assign([ast.Name(t, ast.Store())], a, lineno=1))
                            e.args[k] = ast.Name(t, ast.Load()); ch = True
                        elif not isinstance(a, (ast.Name, ast.Constant)):
                            break
                elif isinstance(e, ast.BinOp):
                    for fl in ('left', 'right'):
                        a = getattr(e, fl)
                        if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)):
                            t = f'_tmp{next(cnt)}'
                            out.append(ast.Assign([ast.Name(t, ast.Store())], a, lineno=1))
                            setattr(e, fl, ast.Name(t, ast.Load())); ch = True
            out.append(st)
        b[:] = out
    if ch: yield fn


def _free(e, fn):
    ps, ls = local_names(fn)
    if ls is None: return None
    return sorted(names_in(e) & (ps | ls))


def t_extract_helper_expr(fn, mod):
    """right-hand sides become calls of new module-level helpers"""
    ps, ls = local_names(fn)
    if ls is None: return
    helpers = []
    nested = {id(y) for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn for y in ast.walk(x)}
    for x in ast.walk(fn):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            return
    for n, f, b in list(blocks(fn)):
        for st in b:
            if id(st) in nested: continue
            for fld, e in own_exprs(st):
                if isinstance(e, (ast.BinOp, ast.IfExp, ast.Call, ast.Compare, ast.BoolOp)) and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr)) for x in ast.walk(e)):
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super': continue
                    if 'super' in names_in(e): continue
                    bound = set()
                    for x in ast.walk(e):
                        if isinstance(x, ast.comprehension): bound |= names_in(x.target)
                    fr = sorted((names_in(e) & (ps | ls)) - bound)
                    nm = f'_helper_{fn.name}_{len(helpers)}'
                    helpers.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in fr], None, [], [], None, []), [ast.Return(e)], [], lineno=1))
                    st.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in fr], [])
    if helpers:
        yield fn, helpers


def t_extract_helper_body(fn, mod):
    """the body of the last for loop / the tail of the function becomes a helper"""
    ps, ls = local_names(fn)
    if ls is None: return
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)): return
    if 'super' in names_in(fn): return
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom)) and x is not fn for x in ast.walk(fn)): return
    body = fn.body
    if len(body) >= 3:
        k = len(body) // 2
        tail = body[k:]
        need = sorted({x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)} & (ps | ls))
        before = {x.id for s in body[:k] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | ps
        condb = set()
        for s in body[:k]:
            if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                condb |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        need = [x for x in need if x in before]
        sure = {x.id for s in body[:k] if isinstance(s, (ast.Assign, ast.AnnAssign)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | ps
        if set(need) <= sure:
            nm = f'_tail_{fn.name}'
            h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), tail, [], lineno=1)
            fn.body = body[:k] + [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], []))]
            yield fn, [h]


def t_extract_loop_body(fn, mod):
    """loop bodies without control flow or local stores used later become helpers"""
    ps, ls = local_names(fn)
    if ls is None or 'super' in names_in(fn): return
    if any(isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef)) and x is not fn for x in ast.walk(fn)): return
    helpers = []
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.For) and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.For)) for s in n.body for x in ast.walk(s)):
            st = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            st |= {x.target.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            used = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name)}
            out = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} 
            cntall = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name): cntall[x.id] = cntall.get(x.id, 0) + 1
            cntin = {}
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name): cntin[x.id] = cntin.get(x.id, 0) + 1
            if any(cntin[v] != cntall[v] for v in st): continue
            aug = {x.target.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            if aug - {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Assign) for x in x.targets if isinstance(x, ast.Name)}: continue
            need = sorted((used & (ps | ls)) - st)
            nm = f'_body_{fn.name}_{len(helpers)}'
            helpers.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), n.body, [], lineno=1))
            n.body = [ast.Expr(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], []))]
    if helpers:
        yield fn, helpers


def t_for_while(fn, mod):
    ch = False
    cnt = itertools.count()
    for n, f, b in list(blocks(fn)):
        for k, st in enumerate(list(b)):
            if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and not st.orelse and isinstance(st.iter, ast.Call) \
                    and isinstance(st.iter.func, ast.Name) and st.iter.func.id == 'range' and len(st.iter.args) <= 2 \
                    and not any(isinstance(x, ast.Continue) for s in st.body for x in ast.walk(s)):
                lo = st.iter.args[0] if len(st.iter.args) == 2 else ast.Constant(0)
                hi = st.iter.args[-1]
                c = f'_k{next(cnt)}'; e = f'_n{next(cnt)}'
                i = b.index(st)
                b[i:i + 1] = [ast.Assign([ast.Name(c, ast.Store())], lo, lineno=1), ast.Assign([ast.Name(e, ast.Store())], hi, lineno=1),
                              ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                                        [ast.Assign([st.target], ast.Name(c, ast.Load()), lineno=1)] + st.body +
                                        [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                ch = True
    if ch: yield fn


def t_comp_loop(fn, mod):
    ch = False
    cnt = itertools.count()
    for n, f, b in list(blocks(fn)):
        for st in list(b):
            for fld, e in own_exprs(st):
                if isinstance(e, (ast.ListComp, ast.DictComp)) and len(e.generators) == 1:
                    g = e.generators[0]
                    t = f'_acc{next(cnt)}'
                    i = b.index(st)
                    if isinstance(e, ast.ListComp):
                        init = ast.List([], ast.Load())
                        upd = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [e.elt], []))
                    else:
                        init = ast.Dict([], [])
                        upd = ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), e.key, ast.Store())], e.value, lineno=1)
                    body = [upd]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    b[i:i] = [ast.Assign([ast.Name(t, ast.Store())], init, lineno=1), ast.For(g.target, g.iter, body, [], lineno=1)]
                    st.value = ast.Name(t, ast.Load()); ch = True
    if ch: yield fn


def t_loop_comp(fn, mod):
    """x=[]; for ..: x.append(e)  -> x=[e for ..]"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for k in range(len(b) - 1):
            a, l = b[k], b[k + 1]
            if isinstance(a, ast.Assign) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(l, ast.For) and len(l.body) == 1 \
                    and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call) and isinstance(l.body[0].value.func, ast.Attribute) \
                    and l.body[0].value.func.attr == 'append' and ast.dump(l.body[0].value.func.value).replace('Load', 'Store') == ast.dump(a.targets[0]):
                a.value = ast.ListComp(l.body[0].value.args[0], [ast.comprehension(l.target, l.iter, [], 0)])
                del b[k + 1]; ch = True; break
    if ch: yield fn


def numeric(e):
    return not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in ast.walk(e))


def t_commute(fn, mod):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor)) or \
                isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and numeric(n):
            n.left, n.right = n.right, n.left; ch = True
    if ch: yield fn


def t_compare_swap(fn, mod):
    ch = False
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in sw:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [sw[type(n.ops[0])]()]; ch = True
    if ch: yield fn


def t_demorgan(fn, mod):
    ch = False
    for n in list(ast.walk(fn)):
        if isinstance(n, (ast.If, ast.While, ast.Assert)) and isinstance(n.test, ast.BoolOp):
            t = n.test
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in t.values])); ch = True
    if ch: yield fn


def t_split_and(fn, mod):
    ch = False
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            v = n.test.values
            n.body = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])]
            n.test = v[0]; ch = True
    if ch: yield fn


def t_merge_if(fn, mod):
    ch = False
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test]); n.body = n.body[0].body; ch = True
    if ch: yield fn


def t_ifexp_stmt(fn, mod):
    ch = False
    for n, f, b in list(blocks(fn)):
        for st in list(b):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
                i = b.index(st); e = st.value
                b[i] = ast.If(e.test, [ast.Assign(st.targets, e.body, lineno=1)], [ast.Assign(copy.deepcopy(st.targets), e.orelse, lineno=1)]); ch = True
            elif isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
                i = b.index(st); e = st.value
                b[i:i + 1] = [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]; ch = True
    if ch: yield fn


def t_dead(fn, mod):
    fn.body.insert(1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0,
                   ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(0), lineno=1))
    for n, f, b in list(blocks(fn)):
        b.append(ast.Pass()) if not isinstance(b[-1], (ast.Return, ast.Raise)) else b.insert(len(b) - 1, ast.If(ast.Constant(False), [ast.Pass()], []))
    yield fn


def t_range0(fn, mod):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'prange') and len(n.args) == 1:
            n.args = [ast.Constant(0)] + n.args + [ast.Constant(1)]; ch = True
    if ch: yield fn


def t_pow(fn, mod):
    ch = False
    for n in list(ast.walk(fn)):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Pow) and isinstance(v.right, ast.Constant) and v.right.value == 2:
                setattr(n, f, ast.BinOp(v.left, ast.Mult(), copy.deepcopy(v.left))); ch = True
    if ch: yield fn


def t_arith(fn, mod):
    """a-b -> -(b-a) ; a/b -> a*(1/b)"""
    ch = False
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.AugAssign): continue
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Sub):
                setattr(n, f, ast.UnaryOp(ast.USub(), ast.BinOp(v.right, ast.Sub(), v.left))); ch = True
            elif isinstance(v, ast.BinOp) and isinstance(v.op, ast.Div):
                setattr(n, f, ast.BinOp(v.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), v.right))); ch = True
    if ch: yield fn


def t_bits(fn, mod):
    """1<<k -> 2**k ; x>>k & 1 -> (x & (1<<k)) >> k ; x//2 etc. untouched"""
    ch = False
    for n in list(ast.walk(fn)):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.LShift) and isinstance(v.left, ast.Constant) and v.left.value == 1:
                setattr(n, f, ast.BinOp(ast.Constant(2), ast.Pow(), v.right)); ch = True
    if ch: yield fn


def t_unpack(fn, mod):
    ch = False
    for n, f, b in list(blocks(fn)):
        for st in list(b):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple) \
                    and len(st.targets[0].elts) == len(st.value.elts) and not any(isinstance(x, ast.Starred) for x in st.targets[0].elts + st.value.elts):
                i = b.index(st)
                ts = [f'_u{k}' for k in range(len(st.value.elts))]
                b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], e, lineno=1) for t, e in zip(ts, st.value.elts)] + \
                             [ast.Assign([e], ast.Name(t, ast.Load()), lineno=1) for t, e in zip(ts, st.targets[0].elts)]
                ch = True
    if ch: yield fn


def t_wrap(fn, mod):
    """f -> thin wrapper around _f_impl"""
    if fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs: return
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)): return
    if 'super' in names_in(fn): return
    inner = copy.deepcopy(fn)
    inner.name = f'_{fn.name.strip("_")}_impl'
    inner.args.defaults = []
    call = ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in fn.args.args], [])
    fn.body = [ast.Return(call)]
    yield fn, [inner]


def t_enumerate(fn, mod):
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' \
                and isinstance(n.target, ast.Tuple) and isinstance(n.iter.args[0], ast.Name) and len(n.iter.args) == 1:
            seq = n.iter.args[0]
            i, x = n.target.elts
            if not isinstance(i, ast.Name): continue
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [seq], [])], [])
            n.target = i
            n.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load()), lineno=1))
            ch = True
    if ch: yield fn


def t_to_enumerate(fn, mod):
    """for i in range(len(x)) / x.size: x[i] -> enumerate"""
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1:
            a = n.iter.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and isinstance(a.args[0], ast.Name):
                seq = a.args[0].id
                n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [ast.Name(seq, ast.Load())], [])
                n.target = ast.Tuple([n.target, ast.Name('_item', ast.Store())], ast.Store())
                ch = True
    if ch: yield fn


def t_reorder(fn, mod):
    """swap adjacent independent simple assignments to names"""
    ch = False
    impure = (ast.Call, ast.Yield, ast.Await)
    for n, f, b in list(blocks(fn)):
        k = 0
        while k + 1 < len(b):
            a, c = b[k], b[k + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Tuple)) for s in (a, c)):
                wa, wc = names_in(a.targets[0]), names_in(c.targets[0])
                pure = all(not any(isinstance(x, impure) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'int', 'float', 'abs', 'range')) for x in ast.walk(s.value)) for s in (a, c))
                tg_ok = all(not any(isinstance(x, (ast.Subscript, ast.Attribute)) for x in ast.walk(s.targets[0])) for s in (a, c))
                if pure and tg_ok and not (wa & (names_in(c.value) | wc)) and not (wc & names_in(a.value)):
                    b[k], b[k + 1] = c, a; ch = True; k += 1
            k += 1
    if ch: yield fn


def t_inline_temp(fn, mod):
    """x = e; <next statement uses x once> -> inline"""
    ch = False
    for n, f, b in list(blocks(fn)):
        k = 0
        while k + 1 < len(b):
            a, c = b[k], b[k + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(c, (ast.Assign, ast.Return)) and c.value is not None:
                v = a.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                inc = [x for x in ast.walk(c.value) if isinstance(x, ast.Name) and x.id == v]
                incomp = any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp)) and v in names_in(x) for x in ast.walk(c.value))
                calls_before = any(isinstance(x, ast.Call) for x in ast.walk(a.value)) and any(isinstance(x, ast.Call) for x in ast.walk(c.value))
                if len(uses) == 2 and len(inc) == 1 and not incomp and not calls_before:
                    class S(ast.NodeTransformer):
                        def visit_Name(s, x):
                            return a.value if x is inc[0] else x
                    c.value = S().visit(c.value)
                    del b[k]; ch = True; continue
            k += 1
    if ch: yield fn


def t_kwargs(fn, mod):
    """positional arguments of calls to functions of the same module become keywords"""
    sigs = {s.name: s for s in mod.body if isinstance(s, ast.FunctionDef)}
    ch = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sigs and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
            s = sigs[n.func.id]
            if s.args.vararg: continue
            if len(n.args) <= len(s.args.args):
                n.keywords = [ast.keyword(p.arg, v) for p, v in zip(s.args.args, n.args)] + n.keywords
                n.args = []; ch = True
    if ch: yield fn


def t_aug_expand(fn, mod):
    """x[i] += v -> x[i] = x[i] + v, and names initialised by a number"""
    scal = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, (int, float)):
            scal |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    ch = False
    for n, f, b in list(blocks(fn)):
        for k, st in enumerate(b):
            if isinstance(st, ast.AugAssign):
                t = st.target
                if isinstance(t, ast.Subscript) or isinstance(t, ast.Name) and t.id in scal:
                    l = copy.deepcopy(t)
                    for x in ast.walk(l):
                        if hasattr(x, 'ctx') and x is l: x.ctx = ast.Load()
                    b[k] = ast.Assign([t], ast.BinOp(l, st.op, st.value), lineno=1); ch = True
    if ch: yield fn


def t_aug_contract(fn, mod):
    ch = False
    for n, f, b in list(blocks(fn)):
        for k, st in enumerate(b):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and isinstance(st.value, ast.BinOp) \
                    and ast.unparse(st.targets[0]) == ast.unparse(st.value.left):
                b[k] = ast.AugAssign(st.targets[0], st.value.op, st.value.right); ch = True
    if ch: yield fn


def t_else_after(fn, mod):
    """if c: ...return ; rest -> if c: ..return else: rest"""
    ch = False
    for n, f, b in list(blocks(fn)):
        if isinstance(n, (ast.For, ast.While)): continue
        for k, st in enumerate(b):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(b):
                st.orelse = b[k + 1:]; del b[k + 1:]; ch = True; break
    if ch: yield fn


def t_distribute(fn, mod):
    """a*(b+c) -> a*b + a*c for names/numbers only"""
    ch = False
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.AugAssign): continue
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.right, ast.BinOp) and isinstance(v.right.op, (ast.Add, ast.Sub)) and numeric(v):
                setattr(n, f, ast.BinOp(ast.BinOp(v.left, ast.Mult(), v.right.left), v.right.op, ast.BinOp(copy.deepcopy(v.left), ast.Mult(), v.right.right))); ch = True
    if ch: yield fn


def t_hoist(fn, mod):
    """hoist attribute reads used in loops (x.attr) to locals at the top of the loop"""
    ch = False
    for n, f, b in list(blocks(fn)):
        for st in list(b):
            if isinstance(st, ast.For):
                at = {}
                stores = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(st)): continue
                funcs = {id(x.func) for x in ast.walk(st) if isinstance(x, ast.Call)}
                for x in ast.walk(st):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id not in stores and id(x) not in funcs and isinstance(x.ctx, ast.Load) and x.value.id in ('self', 'sct'):
                        at.setdefault((x.value.id, x.attr), []).append(x)
                if not at: continue
                i = b.index(st)
                class H(ast.NodeTransformer):
                    def visit_Attribute(s, x):
                        s.generic_visit(x)
                        if isinstance(x.value, ast.Name) and (x.value.id, x.attr) in at and id(x) not in funcs:
                            return ast.Name(f'_{x.value.id}_{x.attr}', ast.Load())
                        return x
                new = H().visit(st)
                b[i:i + 1] = [ast.Assign([ast.Name(f'_{o}_{a}', ast.Store())], ast.Attribute(ast.Name(o, ast.Load()), a, ast.Load()), lineno=1) for o, a in at] + [new]
                ch = True
    if ch: yield fn


def t_docstring(fn, mod):
    if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str):
        if len(fn.body) > 1:
            fn.body.pop(0)
    else:
        fn.body.insert(0, ast.Expr(ast.Constant('doc')))
    yield fn


def t_npfuncs(fn, mod):
    """equivalent numpy spellings"""
    ch = False
    for n in list(ast.walk(fn)):
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for k, x in enumerate(vs):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'np' and not x.keywords:
                    new = None
                    if x.func.attr == 'dot' and len(x.args) == 2:
                        new = ast.Call(ast.Attribute(x.args[0], 'dot', ast.Load()), [x.args[1]], [])
                    elif x.func.attr in ('sum', 'conj', 'copy') and len(x.args) == 1 and isinstance(x.args[0], ast.Name):
                        new = ast.Call(ast.Attribute(x.args[0], x.func.attr, ast.Load()), [], [])
                    elif x.func.attr == 'zeros' and len(x.args) == 1:
                        new = ast.Call(ast.Attribute(x.func.value, 'zeros', ast.Load()), [], [ast.keyword('shape', x.args[0])])
                    elif x.func.attr == 'abs' and len(x.args) == 1:
                        new = ast.Call(ast.Attribute(x.func.value, 'absolute', ast.Load()), x.args, [])
                    if new is not None:
                        ch = True
                        if isinstance(v, list): v[k] = new
                        else: setattr(n, f, new)
    if ch: yield fn


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield None, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n, m


def variants(text):
    """(transform, qualified function name, new module text)"""
    base = ast.parse(text)
    keys = [(c.name if c else None, f.name, i) for i, (c, f) in enumerate(functions(base))]
    for name, t in ALL.items():
        for cn, fnn, idx in keys:
            tree = copy.deepcopy(base)
            c, f = list(functions(tree))[idx]
            before = ast.unparse(tree)
            try:
                for r in t(f, tree):
                    helpers = r[1] if isinstance(r, tuple) else []
                    if helpers:
                        k = tree.body.index(c or f)
                        decos = [] if c else [d for d in f.decorator_list]
                        for h in helpers:
                            h.decorator_list = copy.deepcopy(decos)
                        tree.body[k:k] = helpers
                    ast.fix_missing_locations(tree)
                    new = ast.unparse(tree)
                    if new != before:
                        ast.parse(new)
                        yield name, (cn + '.' if cn else '') + fnn, new
                    break
            except RecursionError:
                pass
