"""Which methods of an unknown object commute.

A method is *plain* when, in every class of the package that has it, all it does is
rebind attributes of self and read attributes of self: nothing is changed in place,
nothing of an argument is changed, self is not handed on, and no method of another
unknown object is called.  Two plain methods commute when neither rebinds what the
other reads or rebinds.  Everything else is taken to depend on everything.
"""
import ast
from .effects import Effects


def _classes(prog):
    t = prog.__dict__.get('_commute')
    if t is None:
        t = prog._commute = {'classes': [], 'memo': {}, 'names': set()}
        for m in prog.modules.values():
            for e in m.names.values():
                if e[0] == 'class' and hasattr(e[1], 'methods'):
                    t['classes'].append(e[1])
                    t['names'] |= set(e[1].methods)
    return t


def having(prog, *names):
    """classes on whose objects all the methods can be called"""
    return [c for c in _classes(prog)['classes'] if all(prog.method(c, n) is not None for n in names)]


def added(prog, name):
    """the method of that name, when it is new (unknown to the reference) and only one class has it: what an
    extracted helper does is read from its body, whatever the object it is called on is called"""
    ref = getattr(prog, 'reference', None)
    if ref is None or any(name in c.methods for c in _classes(ref)['classes']):
        return None
    ms = [c.methods[name] for c in _classes(prog)['classes'] if name in c.methods]
    return ms[0] if len(ms) == 1 else None


def has_attr(prog, cls, name):
    if prog.method(cls, name) is not None or prog.method(cls, '__getattr__') is not None or name in cls.assigns:
        return True
    return any(isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(cls.node))


def touches(prog, cls, name, depth=0):
    """(rebound, read) attribute names, or None"""
    memo = _classes(prog)['memo']
    key = (cls.qual, name)
    if key not in memo:
        memo[key] = None
        f = prog.method(cls, name)
        memo[key] = _one(prog, cls, f, depth) if f is not None and depth <= 3 else None
    return memo[key]


def _one(prog, cls, f, depth):
    if not isinstance(f.node, ast.FunctionDef) or not f.node.args.args:
        return None
    eff = prog.__dict__.get('_effects')
    if eff is None:
        eff = prog._effects = Effects(prog)
    e = eff.of(f)
    if any(e['writes'].values()) or e['self'] or e['globals'] or e['calls'] or e['poked']:
        return None
    me = f.node.args.args[0].arg
    W, R = set(), set()
    inner = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            inner.add(id(n.value))
            (R if isinstance(n.ctx, ast.Load) else W).add(n.attr)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == me and id(n) not in inner:
            return None
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef, ast.Yield, ast.YieldFrom, ast.Await)) and n is not f.node:
            return None
    # a method or property of the class read here reads and rebinds in turn
    for a in list(R):
        if prog.method(cls, a) is not None:
            r = touches(prog, cls, a, depth + 1)
            if r is None:
                return None
            W |= r[0]
            R |= r[1]
        elif a in _classes(prog)['names'] and a not in W and prog.method(cls, '__getattr__') is not None:
            return None
    g = prog.method(cls, '__getattr__')
    if g is not None:
        R |= {x.attr for x in ast.walk(g.node) if isinstance(x, ast.Attribute)}
    if prog.method(cls, '__setattr__') is not None:
        return None
    return W, R


def commute(prog, a, b):
    """calls of the methods a and b on one object may be exchanged"""
    if a is None or b is None:
        return False
    cs = having(prog, a, b)
    for c in cs:
        x, y = touches(prog, c, a), touches(prog, c, b)
        if x is None or y is None or x[0] & (y[0] | y[1]) or y[0] & x[1]:
            return False
    return bool(cs)


def unaffected(prog, method, attr):
    """reading the attribute gives the same after a call of the method"""
    if method is None:
        return False
    cs = [c for c in having(prog, method) if has_attr(prog, c, attr)]
    for c in cs:
        x = touches(prog, c, method)
        if x is None or attr in x[0]:
            return False
        if prog.method(c, attr) is not None:
            y = touches(prog, c, attr)
            if y is None or y[0] or x[0] & y[1]:
                return False
    return bool(cs)
