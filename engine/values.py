"""Run-time values of the summariser (static stand-ins for Python objects)."""
from .terms import *


class Unsupported(Exception):
    pass


class Tup:
    __slots__ = ('items', 'rec')

    def __init__(self, items, rec=None):
        self.items = tuple(items)
        self.rec = rec           # namedtuple record


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class Fn:
    __slots__ = ('func', 'env', 'selfv', 'partial')

    def __init__(self, func, env=None, selfv=None):
        self.func, self.env, self.selfv = func, env, selfv


class Cls:
    __slots__ = ('cls',)

    def __init__(self, c):
        self.cls = c


class Rec:
    __slots__ = ('rec',)

    def __init__(self, r):
        self.rec = r


class Mod:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n


class Ext:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n


class Choice:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts         # [(bool term, value)]


class Sub:
    """value read from container[idx]; remembers where it came from"""
    __slots__ = ('term', 'base', 'idx')

    def __init__(self, term, base, idx):
        self.term, self.base, self.idx = term, base, idx


class Bound:
    __slots__ = ('recv', 'name')

    def __init__(self, r, n):
        self.recv, self.name = r, n


class Rng:
    __slots__ = ('lo', 'step', 'n')

    def __init__(self, lo, step, n):
        self.lo, self.step, self.n = lo, step, n


class Iter:
    """lazy iteration: kind + operands"""
    __slots__ = ('kind', 'ops')

    def __init__(self, kind, ops):
        self.kind, self.ops = kind, ops


class Obj:
    __slots__ = ('id', 'kind', 'base', 'log', 'scope', 'conj', 'cls', 'root', 'loc')

    def __init__(self, i, kind, base, scope, conj, cls=None, root=None, loc=None):
        self.id, self.kind, self.base, self.scope, self.conj = i, kind, base, scope, conj
        self.log = []
        self.cls = cls
        self.root = root
        self.loc = loc


class Entry:
    __slots__ = ('binders', 'guard', 'op', 'idx', 'val', 'loc')

    def __init__(self, binders, guard, op, idx, val, loc):
        self.binders, self.guard, self.op, self.idx, self.val, self.loc = binders, guard, op, idx, val, loc

    def copy(self):
        return Entry(list(self.binders), self.guard, self.op, self.idx, self.val, self.loc)
