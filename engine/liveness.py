"""Backward liveness over the syntax tree: which local names a merge point needs."""
import ast


def uses(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}


def stores(t):
    """plain names bound by a target"""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[stores(e) for e in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return stores(t.value)
    return set()


class Liveness:
    def __init__(self, node):
        self.after = {}       # id(stmt) -> names live after it
        self.head = {}        # id(loop) -> names live at the start of an iteration
        self.always = set()
        body = node.body if isinstance(node.body, list) else []
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.always |= uses(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval', 'exec'):
                self.always |= {m.id for m in ast.walk(node) if isinstance(m, ast.Name)}
        self.block(body, set(), set(), set(), set())

    def block(self, stmts, out, brk, cont, exc):
        for st in reversed(stmts):
            out = self.stmt(st, out, brk, cont, exc) | exc
        return out

    def stmt(self, st, out, brk, cont, exc):
        self.after[id(st)] = self.after.get(id(st), set()) | out | self.always
        if isinstance(st, ast.Assign):
            k = set().union(*[stores(t) for t in st.targets])
            return (out - k) | uses(st)
        if isinstance(st, ast.AnnAssign):
            return (out - (stores(st.target) if st.value is not None else set())) | uses(st)
        if isinstance(st, ast.AugAssign):
            return out | uses(st) | stores(st.target)
        if isinstance(st, ast.If):
            return uses(st.test) | self.block(st.body, out, brk, cont, exc) | self.block(st.orelse, out, brk, cont, exc)
        if isinstance(st, (ast.For, ast.While)):
            after = self.block(st.orelse, out, brk, cont, exc) if st.orelse else out
            tgt = stores(st.target) if isinstance(st, ast.For) else set()
            u = uses(st.target) if isinstance(st, ast.For) else uses(st.test)
            head = set(after) | u
            for _ in range(10):
                b = (self.block(st.body, head, out, head, exc) - tgt) | after | u
                if b <= head:
                    break
                head |= b
            self.head[id(st)] = head | self.always
            return head | (uses(st.iter) if isinstance(st, ast.For) else set())
        if isinstance(st, ast.Try):
            fin = self.block(st.finalbody, out, brk, cont, exc) if st.finalbody else out
            hs = set()
            for h in st.handlers:
                hs |= self.block(h.body, fin, brk, cont, exc) - ({h.name} if h.name else set())
                if h.type is not None:
                    hs |= uses(h.type)
            oe = self.block(st.orelse, fin, brk, cont, exc) if st.orelse else fin
            extra = exc | hs | (fin if st.finalbody else set())
            return self.block(st.body, oe, brk, cont, extra) | hs
        if isinstance(st, ast.With):
            b = self.block(st.body, out, brk, cont, exc)
            for it in st.items:
                if it.optional_vars is not None:
                    b = b - stores(it.optional_vars)
                b = b | uses(it.context_expr)
            return b
        if isinstance(st, (ast.Return, ast.Raise)):
            return uses(st)
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cont)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return (out - {st.name}) | uses(st)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return out
        return out | uses(st)
