"""C26: heap discipline and bounds in the C sources.

A typestate analysis over clang's syntax tree.  Every path of every function is followed with, per heap object, its state
(allocated but not tested, usable, released) and its size in bytes as an affine form of the function's integers; helpers
without a contract are entered, the numerical routines have contracts (the length of each vector argument).  Indices are
affine forms too; an access is inside its buffer when the loop bounds and the tests on the way imply it (Fourier-Motzkin
elimination), outside when some small sizes that satisfy them put it outside, undecided otherwise."""
from fractions import Fraction
from itertools import product, count

SIZE = {'double': 8, 'int': 4, '_Complex double': 16, 'double complex': 16, 'float': 4, 'char': 1, 'long': 8}

# contracts: lengths of the vectors a routine is given, in terms of its arguments and of the global sizes
LEN = {
    'init_bath': {'x': '2*nbath'}, 'eval_delta': {'x': '2*nbath'}, 'eval_ddelta': {'x': '2*nbath'},
    'eval_chi2': {'x': '2*nbath'}, 'eval_dchi2': {'x': '2*nbath', 'dx': '2*nbath'},
    'fit': {'x': '2*_nbath', '_vals_true': '_nmats', 'iter': '1', 'fret': '1'},
    'f1dim': {}, 'df1dim': {}, 'dlinmin': {'p': 'n', 'xi': 'n', 'fret': '1'},
    'frprmn': {'p': 'n', 'iter': '1', 'fret': '1'},
    'mnbrak': {k: '1' for k in ('ax', 'bx', 'cx', 'fa', 'fb', 'fc')}, 'dbrent': {'xmin': '1'},
}
# sizes the routines work with: the vectors given to a function passed as an argument have this length
DIM = {'dlinmin': 'n', 'frprmn': 'n', 'f1dim': 'ncom', 'df1dim': 'ncom'}
GLEN = {'vals_true': ('nmats',), 'delta': ('nmats',), 'z': ('nmats',), 'ddelta': ('nmats', '2*nbath'),
        'pcom': ('ncom',), 'xicom': ('ncom',)}
GUSED = {'z': 'eval', 'delta': 'eval', 'ddelta': 'eval', 'vals_true': 'eval', 'pcom': 'dim', 'xicom': 'dim'}
AT_LEAST = {'nbath': 1, '_nbath': 1, 'nmats': 0, '_nmats': 0, 'n': 0, 'ncom': 0, 'm': 0}
# vectors a routine reads (every element set by the caller); the others it fills
IN = {'eval_delta': ('x',), 'eval_ddelta': ('x',), 'eval_chi2': ('x',), 'eval_dchi2': ('x',), 'frprmn': ('p',), 'dlinmin': ('p', 'xi'),
      'fit': ('x', '_vals_true')}
GIN = {'z': 'eval', 'vals_true': 'eval', 'pcom': 'dim', 'xicom': 'dim'}
DIES = {'exit', 'abort', '_exit', 'quick_exit', '__assert_fail', 'longjmp', '__builtin_unreachable'}


# ---- affine forms: dict symbol -> coefficient, '' the constant
def aff(c=0, **s):
    d = {k: Fraction(v) for k, v in s.items() if v}
    if c:
        d[''] = Fraction(c)
    return d


def sym(s):
    return {s: Fraction(1)}


def add(a, b, f=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v * f
        if not d[k]:
            del d[k]
    return d


def mul(a, k):
    return {s: v * k for s, v in a.items()} if k else {}


def isconst(a):
    return all(k == '' for k in a)


def cval(a):
    return a.get('', Fraction(0))


def ev_text(text, env):
    """2*nbath, n, 1 over a valuation"""
    out = aff(0)
    for part in text.split('+'):
        k, _, s = part.rpartition('*')
        k = Fraction(k) if k else Fraction(1)
        if s.isdigit():
            out = add(out, aff(int(s)), k)
        else:
            if env.get(s) is None:
                return None
            out = add(out, env[s], k)
    return out


def infeasible(cons):
    """no rational solution of cons >= 0"""
    cons = [dict(c) for c in cons]
    while True:
        vs = {}
        for c in cons:
            if isconst(c):
                if cval(c) < 0:
                    return True
            for k in c:
                if k:
                    vs[k] = vs.get(k, 0) + 1
        cons = [c for c in cons if not isconst(c)]
        if not vs:
            return False
        v = min(vs, key=lambda k: (vs[k], k))
        pos = [c for c in cons if c.get(v, 0) > 0]
        neg = [c for c in cons if c.get(v, 0) < 0]
        rest = [c for c in cons if not c.get(v, 0)]
        if len(pos) * len(neg) > 400:
            return False
        for p in pos:
            for n in neg:
                rest.append(add(mul(p, -n[v]), n, p[v]))
        seen = set()
        cons = []
        for c in rest:
            k = tuple(sorted(c.items()))
            if k not in seen:
                seen.add(k)
                cons.append(c)


def implied(cons, goal):
    """cons imply goal >= 0 over the integers"""
    return infeasible(cons + [add(mul(goal, -1), aff(1), -1)])


def relevant(cons, goal):
    names = {k for k in goal if k}
    while True:
        more = {k for c in cons if any(k in names for k in c if k) for k in c if k} | names
        if more == names:
            return [c for c in cons if any(k in names for k in c if k)], names
        names = more


def witness(cons, goal, top=9):
    cs, names = relevant(cons, goal)
    names = sorted(names)
    if len(names) > 5:
        return None
    for vals in product(range(-1, top), repeat=len(names)):
        env = dict(zip(names, vals))
        val = lambda a: sum(v * (env[k] if k else 1) for k, v in a.items())
        if val(goal) < 0 and all(val(c) >= 0 for c in cs):
            return env
    return None


class Obj:
    """state raw (not tested) | ok | freed; size in bytes"""
    __slots__ = ('state', 'bytes', 'kind', 'site', 'rng')

    def __init__(self, state, bytes_, kind, site, rng=None):
        self.state, self.bytes, self.kind, self.site, self.rng = state, bytes_, kind, site, rng

    def but(self, **kw):
        o = Obj(self.state, self.bytes, self.kind, self.site, self.rng)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def key(self):
        return (self.state, self.kind, str(self.site), None if self.bytes is None else tuple(sorted(self.bytes.items())))


class St:
    """one path"""
    def __init__(self):
        self.env, self.heap, self.cons, self.loose = {}, {}, [], False
        self.escaped = frozenset()

    def copy(self):
        s = St()
        s.env, s.heap, s.cons, s.loose, s.escaped = dict(self.env), dict(self.heap), list(self.cons), self.loose, self.escaped
        return s

    def key(self):
        return (tuple(sorted(((str(k), vkey(v)) for k, v in self.env.items()))),
                tuple(sorted((str(k), o.key()) for k, o in self.heap.items())),
                tuple(sorted({tuple(sorted(c.items())) for c in self.cons})), self.loose, self.escaped)


def vkey(v):
    return tuple(tuple(sorted(x.items())) if isinstance(x, dict) else str(x) for x in v)


class Unsupported(Exception):
    pass


class Dead(Exception):
    pass


def strip(n):
    while n.get('kind') in ('ParenExpr', 'ConstantExpr') or (n.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('inner')):
        n = n['inner'][-1]
    return n


def typ(n):
    t = n.get('type') or {}
    return (t.get('desugaredQualType') or t.get('qualType') or '').replace('const ', '').replace(' const', '').strip()


def pointee(t):
    t = t.strip()
    if t.endswith(']'):
        return t[:t.rindex('[')].strip()
    return t[:-1].strip() if t.endswith('*') else None


def sizeof(t):
    if t is None:
        return None
    t = t.strip()
    if t.endswith('*') or '(*' in t:
        return 8
    if '_Complex' in t or 'complex' in t:
        return 16
    if t in SIZE:
        return SIZE[t]
    return None


def isint(t):
    return t in ('int', 'long', 'short', 'char', 'unsigned int', 'unsigned long', 'size_t', 'long long', 'int32_t', 'csi', '_Bool',
                 'bool', '__int32_t', 'unsigned char')


FLOATS = ('double', 'float', '_Complex double', 'long double')


class Analysis:
    def __init__(self, decls):
        self.decls = decls                      # rel -> [decl]
        self.funcs, self.where = {}, {}
        for rel, ds in decls.items():
            for d in ds:
                if d.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
                    self.funcs[d['name']] = d
                    self.where[d['name']] = rel
        self.findings = {}
        self.notes = {}
        self.done = {}
        self.n = count()
        self.called = set()
        for d in self.funcs.values():
            self.calls(d, self.called)
        self.called -= set(LEN)

    def calls(self, n, out):
        if n.get('kind') == 'CallExpr':
            f = strip(n['inner'][0])
            if f.get('kind') == 'DeclRefExpr':
                out.add(f['referencedDecl']['name'])
        for c in n.get('inner', ()):
            self.calls(c, out)

    # ---- what has been written to a buffer (all paths together, in the order of the text)
    def writes(self, key, idx):
        if isinstance(key, tuple) or self.written.get(key) == 'all':
            return
        if idx is None or any(k.startswith('?') for k in idx):
            self.written[key] = 'all'
            return
        if len(self.rounds) == 1 and self.later is not None:
            self.later.setdefault(key, []).append(idx)
        cs = [k for k in idx if k in self.ranges]
        if not cs:
            r = (idx, add(idx, aff(1)))
        elif len(cs) == 1 and abs(idx[cs[0]]) == 1 and None not in self.ranges[cs[0]]:
            lo, hi = self.ranges[cs[0]]
            rest = {k: v for k, v in idx.items() if k != cs[0]}
            r = (add(rest, lo), add(rest, hi)) if idx[cs[0]] == 1 else (add(add(rest, hi, -1), aff(1)), add(add(rest, lo, -1), aff(1)))
        else:
            self.written[key] = 'all'
            return
        if any(k.startswith('?') or k in self.ranges for e in r for k in e):
            self.written[key] = 'all'
            return
        if r not in self.written.setdefault(key, []):
            self.written[key].append(r)

    def filled(self, p, st):
        if p[0] == 'p':
            self.written[p[1]] = 'all'

    def reads(self, p, st, n, need, how, idx=None):
        """elements [0, need) of a buffer (or some element, without need) are read"""
        if p[0] != 'p' or isinstance(p[1], tuple):
            return
        o = st.heap.get(p[1])
        if o is None or o.kind != 'local':
            return
        got = self.written.get(p[1], [])
        if self.rounds == [False] and not got and idx is not None and self.first is not None:
            self.first.setdefault(p[1], (idx, n, how, self.cur))
        if got == 'all' or not all(self.rounds):
            return
        if got and ((need is None and idx is None) or p[2] is None or st.loose):
            return
        if got:
            t = sym('t')
            first = idx if need is None else p[2]
            need = add(idx, aff(1)) if need is None else add(need, p[2])
            if any(k.startswith('?') for k in first):
                return
            cs = st.cons + [add(t, first, -1), add(add(need, t, -1), aff(1), -1)]
            if any(k.startswith('?') for e in [need] + [x for r in got for x in r] for k in e):
                return
            names = {'t'} | {k for e in [need] + [x for r in got for x in r] for k in e if k}
            goal = {k: Fraction(1) for k in names}
            cs, names = relevant(cs, goal)
            names = sorted(names)
            if len(names) > 5:
                return
            for vals in product(range(-1, 9), repeat=len(names)):
                env = dict(zip(names, vals))
                val = lambda a: sum(v * (env[k] if k else 1) for k, v in a.items())
                if all(val(c) >= 0 for c in cs) and not any(val(lo) <= env['t'] < val(hi) for lo, hi in got):
                    break
            else:
                self.proved('initialisation')
                return
            show = f'element {env.pop("t")} for ' + ', '.join(f'{k.split(".")[0]}={v}' for k, v in env.items())
        else:
            show = 'no element'
        self.bad('read before it is written', f'{self.cur} {self.text(n)}', n.get('_line'),
                 f'{how}: {show} ' + ('was not set' if got else 'has been set'), self.cur)
        self.written[p[1]] = 'all'

    # ---- reporting
    def bad(self, rule, construct, line, text, fn):
        self.findings.setdefault((rule, construct), (f'{self.where.get(fn, "?")}:{line}', text))

    def note(self, what, why):
        self.notes.setdefault(what, why)

    def proved(self, what):
        self.done[what] = self.done.get(what, 0) + 1

    # ---- entry
    def function(self, name):
        self.cur = self.root = name
        self.depth = 0
        self.accesses = 0
        self.written, self.ranges, self.rounds = {}, {}, []
        self.first = self.later = None
        self.names = set()
        d = self.funcs[name]
        st = St()
        lens = LEN.get(name, {})
        ps = [p for p in d['inner'] if p.get('kind') == 'ParmVarDecl']
        vals = {}
        for p in ps:
            t = typ(p)
            if isint(t):
                s = p.get('name', '?')
                st.env[p['id']] = ('i', sym(s))
                vals[s] = sym(s)
                if s in AT_LEAST:
                    st.cons.append(add(sym(s), aff(AT_LEAST[s]), -1))
        for g in ('nbath', 'nmats', 'ncom'):
            vals.setdefault(g, sym(g))
            st.cons.append(add(sym(g), aff(AT_LEAST[g]), -1))
        for p in ps:
            t = typ(p)
            if '(*' in t or '(' in t:
                st.env[p['id']] = ('fnptr', p.get('name'))
            elif pointee(t) is not None:
                k = f'param {p.get("name")}'
                need = ev_text(lens[p['name']], vals) if p.get('name') in lens else None
                sz = sizeof(pointee(t))
                st.heap[k] = Obj('ok', mul(need, sz) if need is not None and sz else None, 'param', 0)
                st.env[p['id']] = ('p', k, aff(0))
        outs = self.run_body(d, st)
        for s, v in outs:
            self.at_return(s, v, name, d)

    def at_return(self, st, v, name, d):
        kept = set(st.escaped)
        if v[0] == 'p':
            kept.add(v[1])
        for k, o in st.heap.items():
            base = k[0] if isinstance(k, tuple) else k
            if o.kind != 'local' or o.state == 'freed' or base in kept:
                continue
            if o.state == 'null':
                continue
            if isinstance(k, tuple) and o.state == 'none':
                continue
            if name in self.called and any(isinstance(n, tuple) and v2[0] == 'p' and v2[1] == base for n, v2 in st.env.items()):
                continue                     # part of another function, which releases it
            what = 'the rows of the buffer' if isinstance(k, tuple) else 'the buffer'
            self.bad('allocation not released', f'{name} {self.label(st, base)}', o.site[1],
                     f'{what} allocated at line {o.site[1]} of {o.site[0]} is not released when {name} returns', name)

    def label(self, st, k):
        names = [n for n, v in st.env.items() if v[0] == 'p' and v[1] == k]
        for n in names:
            if isinstance(n, tuple):
                return n[1]
        return self.varname.get(names[0], 'buffer') if names else 'buffer'

    varname = {}

    def run_body(self, d, st):
        body = next(c for c in d['inner'] if c.get('kind') == 'CompoundStmt')
        fl = self.block(body.get('inner', ()), [st])
        return fl['ret'] + [(s, ('u',)) for s in fl['next']]

    # ---- statements over sets of paths
    def block(self, stmts, sts):
        out = {'next': [], 'ret': [], 'brk': [], 'cont': []}
        cur = sts
        for n in stmts:
            nxt = []
            for s in cur:
                f = self.stmt(n, s)
                nxt += f['next']
                for k in ('ret', 'brk', 'cont'):
                    out[k] += f[k]
            cur = self.dedupe(nxt)
            if not cur:
                break
        out['next'] = cur
        return out

    def dedupe(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > 200:
            raise Unsupported('too many paths')
        return out

    def flow(self, **kw):
        return {'next': [], 'ret': [], 'brk': [], 'cont': [], **kw}

    def stmt(self, n, st):
        k = n.get('kind')
        try:
            if k == 'CompoundStmt':
                return self.block(n.get('inner', ()), [st])
            if k == 'DeclStmt':
                for v in n.get('inner', ()):
                    if v.get('kind') != 'VarDecl':
                        continue
                    self.varname[v['id']] = v['name']
                    init = [c for c in v.get('inner', ()) if c.get('kind') != 'FullComment']
                    t = typ(v)
                    if t.endswith(']') and pointee(t) is not None:
                        m = t[t.rindex('[') + 1:-1]
                        ln = aff(int(m)) if m.isdigit() else None
                        sz = sizeof(pointee(t))
                        key = f'array {v["name"]} {v["id"]}'
                        st.heap[key] = Obj('ok', mul(ln, sz) if ln is not None and sz else None, 'stack', 0)
                        st.env[v['id']] = ('p', key, aff(0))
                        for c in init:
                            self.ev(c, st)
                    elif init:
                        st.env[v['id']] = self.cast(self.ev(init[-1], st), t, st)
                    else:
                        st.env[v['id']] = ('uninit',) if pointee(t) is not None else ('u',)
                return self.flow(next=[st])
            if k == 'IfStmt':
                inner = n['inner']
                out = self.flow()
                for s, b in self.cond(inner[0], st):
                    if b:
                        f = self.stmt(inner[1], s)
                    elif len(inner) > 2:
                        f = self.stmt(inner[2], s)
                    else:
                        f = self.flow(next=[s])
                    for x in out:
                        out[x] += f[x]
                out['next'] = self.dedupe(out['next'])
                return out
            if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
                return self.loop(n, st)
            if k == 'ReturnStmt':
                v = self.ev(n['inner'][0], st) if n.get('inner') else ('u',)
                return self.flow(ret=[(st, v)])
            if k == 'BreakStmt':
                return self.flow(brk=[st])
            if k == 'ContinueStmt':
                return self.flow(cont=[st])
            if k == 'NullStmt':
                return self.flow(next=[st])
            if k in ('SwitchStmt', 'GotoStmt', 'LabelStmt', 'GCCAsmStmt'):
                raise Unsupported(k)
            c = strip(n)
            if c.get('kind') == 'CallExpr' and self.inlined(c):
                return self.flow(next=[s for s, _ in self.inline(c, st)])
            if c.get('kind') == 'BinaryOperator' and c.get('opcode') == '=':
                r = strip(c['inner'][1])
                if r.get('kind') == 'CallExpr' and self.inlined(r):
                    out = []
                    for s, v in self.inline(r, st):
                        self.store(c['inner'][0], self.cast(v, typ(c['inner'][0]), s), s)
                        out.append(s)
                    return self.flow(next=self.dedupe(out))
            if c.get('kind') == 'ConditionalOperator':
                out = []
                for s, b in self.cond(c['inner'][0], st):
                    out += self.stmt(c['inner'][1 if b else 2], s)['next']
                return self.flow(next=self.dedupe(out))
            self.ev(n, st)
            return self.flow(next=[st])
        except Dead:
            return self.flow()

    def assigned(self, n, out):
        k = n.get('kind')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n.get('opcode') not in (
                '==', '!=', '<=', '>='):
            t = strip(n['inner'][0])
            if t.get('kind') == 'DeclRefExpr':
                out.add(self.key(t))
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            t = strip(n['inner'][0])
            if t.get('kind') == 'DeclRefExpr':
                out.add(self.key(t))
        for c in n.get('inner', ()):
            self.assigned(c, out)
        return out

    def loop(self, n, st):
        k = n.get('kind')
        if k == 'ForStmt':
            init, _, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
            if init.get('kind'):
                f = self.stmt(init, st)
                if not f['next']:
                    return f
                st = f['next'][0]
        elif k == 'WhileStmt':
            cond, body = n['inner'][0], n['inner'][-1]
            inc = {}
        else:
            body, cond = n['inner'][0], n['inner'][-1]
            inc = {}
        changed = self.assigned(body, set()) | (self.assigned(inc, set()) if inc.get('kind') else set())
        if cond.get('kind'):
            changed |= self.assigned(cond, set())
        outer = st.env.get('$loop')
        counter = self.counter(cond, inc, st) if k == 'ForStmt' else None
        if counter and counter[0] in self.assigned(body, set()):
            counter = None
        out = self.flow()
        skip = st.copy()                    # the body does not run
        base = st
        for c in changed:
            if base.env.get(c, ('u',))[0] == 'i':
                base.env[c] = ('i', sym(f'?{next(self.n)}'))
            elif base.env.get(c, ('u',))[0] == 'p' and c in self.assigned(body, set()):
                v = base.env[c]
                base.env[c] = ('p', v[1], None)
        cur = [base]
        brk = []
        depth = len(self.rounds)
        if not depth:
            self.first, self.later = {}, {}
        for turn in range(2):
            nxt = []
            self.second = turn == 1
            self.rounds = self.rounds[:depth] + [turn == 1]
            for s in cur:
                s = s.copy()
                if counter:
                    var, lo, hi = counter
                    j = sym(f'{self.varname.get(var, "i")}.{next(self.n)}')
                    s.env[var] = ('i', j)
                    self.ranges[next(iter(j))] = (lo, hi)
                    if not depth:
                        self.names.add(next(iter(j)))
                    if lo is not None:
                        s.cons.append(add(j, lo, -1))
                    if hi is not None:
                        s.cons.append(add(add(hi, j, -1), aff(1), -1))
                    s.env['$loop'] = ('loop', str(next(iter(j))), lo, hi)
                    starts = [s]
                elif cond.get('kind') and k != 'DoStmt':
                    s.env['$loop'] = ('loop', None, None, None)
                    starts = [x for x, b in self.cond(cond, s) if b]
                else:
                    s.env['$loop'] = ('loop', None, None, None)
                    starts = [s]
                for x in starts:
                    f = self.stmt(body, x)
                    out['ret'] += f['ret']
                    brk += f['brk']
                    for y in f['next'] + f['cont']:
                        if inc.get('kind') and not counter:
                            self.ev(inc, y)
                        self.leave(y, outer)
                        # what was assumed about this round's counter is about this round
                        if counter:
                            nm = next(iter(j))
                            y.cons = [c for c in y.cons if nm not in c]
                            y.env[counter[0]] = ('i', sym(f'?{next(self.n)}'))
                        nxt.append(y)
            cur = self.dedupe(nxt)
            if not cur:
                break
            if turn == 0:
                first = cur
                cur = [s.copy() for s in cur]
        self.second = False
        self.rounds = self.rounds[:depth]
        if not depth:
            form = lambda i: tuple(sorted(('$' if k in self.names else k, v) for k, v in i.items()))
            for key, (idx, node, how, fn) in self.first.items():
                ws = self.later.get(key)
                if ws and self.written.get(key) != 'all' and '$' in dict(form(idx)) and {form(w) for w in ws} == {form(idx)}:
                    self.bad('read before it is written', f'{fn} {self.text(node)}', node.get('_line'),
                             f'{how}: each element is set in the same round of the loop, later', fn)
            self.first = self.later = None
        for y in brk:
            self.leave(y, outer)
        after = brk + (first if 'first' in locals() else [])
        if not after:
            # the body always leaves: what follows runs when it does not run at all
            after = [skip]
        if not counter:
            # a loop may end with its first test
            states = lambda s: tuple(sorted((str(a), o.state) for a, o in s.heap.items() if not isinstance(a, tuple)))
            if states(skip) not in {states(s) for s in after} and k != 'DoStmt':
                after.append(skip)
        elif skip is not None and brk:
            pass
        out['next'] = self.dedupe(after)
        return out

    second = False

    def leave(self, st, outer):
        if outer is None:
            st.env.pop('$loop', None)
        else:
            st.env['$loop'] = outer

    def counter(self, cond, inc, st):
        """(variable, lowest, one past the highest) of a counting loop"""
        c, i = strip(cond) if cond.get('kind') else {}, strip(inc) if inc.get('kind') else {}
        if c.get('kind') != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '!=', '>', '>='):
            return None
        l = strip(c['inner'][0])
        if l.get('kind') != 'DeclRefExpr':
            return None
        var = self.key(l)
        step = None
        if i.get('kind') == 'UnaryOperator' and i.get('opcode') in ('++', '--'):
            t = strip(i['inner'][0])
            if t.get('kind') == 'DeclRefExpr' and self.key(t) == var:
                step = 1 if i['opcode'] == '++' else -1
        elif i.get('kind') == 'CompoundAssignOperator' and i.get('opcode') in ('+=', '-='):
            t = strip(i['inner'][0])
            v = self.ev(i['inner'][1], st.copy())
            if t.get('kind') == 'DeclRefExpr' and self.key(t) == var and v[0] == 'i' and isconst(v[1]) and cval(v[1]) > 0:
                step = 1 if i['opcode'] == '+=' else -1
        if step is None:
            return None
        a = st.env.get(var, ('u',))
        b = self.ev(c['inner'][1], st.copy())
        if a[0] != 'i' or b[0] != 'i':
            return None
        if step > 0 and c['opcode'] in ('<', '<=', '!='):
            return var, a[1], add(b[1], aff(1)) if c['opcode'] == '<=' else b[1]
        if step < 0 and c['opcode'] in ('>', '>='):
            return var, b[1] if c['opcode'] == '>=' else add(b[1], aff(1)), add(a[1], aff(1))
        return None

    # ---- conditions
    def cond(self, n, st):
        n0 = n
        n = strip(n)
        k = n.get('kind')
        if k == 'UnaryOperator' and n.get('opcode') == '!':
            return [(s, not b) for s, b in self.cond(n['inner'][0], st)]
        if k == 'BinaryOperator' and n.get('opcode') in ('&&', '||'):
            out = []
            for s, b in self.cond(n['inner'][0], st):
                if b == (n['opcode'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(n['inner'][1], s)
            return out
        if k == 'BinaryOperator' and n.get('opcode') in ('==', '!=', '<', '<=', '>', '>='):
            try:
                a, b = self.ev(n['inner'][0], st), self.ev(n['inner'][1], st)
            except Dead:
                return []
            op = n['opcode']
            if op in ('==', '!=') and 'null' in (a[0], b[0]) and 'p' in (a[0], b[0]):
                p = a if a[0] == 'p' else b
                return [(s, isnull == (op == '==')) for s, isnull in self.nulltest(p, st)]
            if a[0] == 'i' and b[0] == 'i':
                d = add(a[1], b[1], -1)
                pos = {'<': (mul(d, -1), -1), '<=': (mul(d, -1), 0), '>': (d, -1), '>=': (d, 0)}
                out = []
                if op in pos:
                    f, o = pos[op]
                    t, e = st.copy(), st
                    t.cons.append(add(f, aff(o)))
                    # not (f + o >= 0)  <=>  -f - o - 1 >= 0
                    e.cons.append(add(mul(add(f, aff(o)), -1), aff(1), -1))
                    for s, v in ((t, True), (e, False)):
                        if not infeasible(s.cons):
                            out.append((s, v))
                    return out
                eq, lt, gt = st.copy(), st.copy(), st
                eq.cons += [d, mul(d, -1)]
                lt.cons.append(add(mul(d, -1), aff(1), -1))
                gt.cons.append(add(d, aff(1), -1))
                for s, v in ((eq, True), (lt, False), (gt, False)):
                    if not infeasible(s.cons):
                        out.append((s, v == (op == '==')))
                return out
            if not any(typ(strip(x)) in FLOATS or typ(x) in FLOATS for x in n['inner']):
                st.loose = True
            return [(st.copy(), True), (st, False)]
        if k == 'BinaryOperator' and n.get('opcode') in ('&', '%'):
            a, b = self.ev(n['inner'][0], st), self.ev(n['inner'][1], st)
            if a[0] == 'i' and b[0] == 'i' and isconst(b[1]) and cval(b[1]) == (1 if n['opcode'] == '&' else 2):
                out = []
                for odd in (1, 0):
                    s = st.copy()
                    q = sym(f'half.{next(self.n)}')
                    d = add(add(a[1], q, -2), aff(odd), -1)
                    s.cons += [d, mul(d, -1)]
                    if not infeasible(s.cons):
                        out.append((s, bool(odd)))
                return out
        try:
            v = self.ev(n0, st)
        except Dead:
            return []
        if v[0] == 'p':
            return [(s, not isnull) for s, isnull in self.nulltest(v, st)]
        if v[0] == 'null':
            return [(st, False)]
        if v[0] == 'i':
            if isconst(v[1]):
                return [(st, bool(cval(v[1])))]
            s = st.copy()
            s.cons += [v[1], mul(v[1], -1)]
            return [(st, True)] + ([] if infeasible(s.cons) else [(s, False)])
        if typ(n) not in FLOATS:
            st.loose = True
        return [(st.copy(), True), (st, False)]

    def nulltest(self, p, st):
        """[(state, is null)]"""
        o = st.heap.get(p[1])
        if o is None:
            return [(st.copy(), True), (st, False)]
        if o.state == 'raw':
            a = st.copy()
            a.heap[p[1]] = o.but(state='null')
            st.heap[p[1]] = o.but(state='ok')
            return [(a, True), (st, False)]
        if o.state == 'null':
            return [(st, True)]
        return [(st, False)] if o.kind in ('local', 'stack') else [(st.copy(), True), (st, False)]

    # ---- expressions
    def key(self, n):
        d = n['referencedDecl']
        if d['id'] in self.globals_:
            return ('g', d['name'])
        return d['id']

    @property
    def globals_(self):
        if not hasattr(self, '_g'):
            self._g = {d['id'] for ds in self.decls.values() for d in ds if d.get('kind') == 'VarDecl'}
        return self._g

    def load(self, key, n, st):
        if key in st.env:
            return st.env[key]
        if isinstance(key, tuple):
            t = typ(n)
            if isint(t):
                v = ('i', sym(key[1]))
            elif '(' in t:
                v = ('fnptr', key[1])
            elif pointee(t) is not None:
                k = f'global {key[1]}'
                need = GLEN.get(key[1])
                vals = {g: (st.env.get(('g', g), ('i', sym(g)))[1] if st.env.get(('g', g), ('i',))[0] == 'i' else None)
                        for g in ('nbath', 'nmats', 'ncom')}
                sz = sizeof(pointee(t))
                ln = ev_text(need[0], vals) if need else None
                st.heap[k] = Obj('ok', mul(ln, sz) if ln is not None and sz else None, 'global', 0)
                if need and len(need) > 1:
                    ln = ev_text(need[1], vals)
                    st.heap[(k, 'row')] = Obj('ok', mul(ln, sizeof(pointee(pointee(t)))) if ln is not None else None, 'global', 0)
                v = ('p', k, aff(0))
            else:
                v = ('u',)
            st.env[key] = v
            return v
        return ('u',)

    def cast(self, v, t, st):
        if v[0] == 'i' and cval(v[1]) == 0 and isconst(v[1]) and pointee(t) is not None:
            return ('null',)
        if v[0] == 'i' and t in FLOATS:
            return ('u',)
        if v[0] != 'i' and isint(t) and v[0] == 'u':
            return ('i', sym(f'?{next(self.n)}'))
        return v

    def ev(self, n, st):
        k = n.get('kind')
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.ev(n['inner'][0], st)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            v = self.ev(n['inner'][-1], st)
            if n.get('castKind') == 'NullToPointer':
                return ('null',)
            if n.get('castKind') in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingRealToComplex', 'IntegralToBoolean',
                                     'PointerToBoolean'):
                return ('u',) if n['castKind'] != 'FloatingToIntegral' else ('i', sym(f'?{next(self.n)}'))
            return v
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return ('i', aff(int(n['value'])))
        if k in ('FloatingLiteral', 'StringLiteral', 'ImaginaryLiteral', 'PredefinedExpr'):
            return ('u',)
        if k == 'UnaryExprOrTypeTraitExpr':
            t = n.get('argType') or (n['inner'][0].get('type') if n.get('inner') else {})
            s = sizeof(((t.get('desugaredQualType') or t.get('qualType')) or '').replace('const ', ''))
            return ('i', aff(s)) if s else ('i', sym(f'?{next(self.n)}'))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'FunctionDecl':
                return ('fn', d['name'])
            if d['kind'] == 'EnumConstantDecl':
                return ('u',)
            return self.load(self.key(n), n, st)
        if k == 'ArraySubscriptExpr':
            return self.access(n, st, 'read')
        if k == 'MemberExpr':
            self.ev(n['inner'][0], st)
            return ('u',)
        if k == 'UnaryOperator':
            return self.unary(n, st)
        if k == 'BinaryOperator':
            return self.binary(n, st)
        if k == 'CompoundAssignOperator':
            r = self.ev(n['inner'][1], st)
            l = self.ev(n['inner'][0], st)
            op = n['opcode'][:-1]
            v = self.arith(op, l, r, n)
            if typ(n['inner'][0]) in FLOATS:
                v = ('u',)
            self.store(n['inner'][0], v, st, read=False)
            return v
        if k == 'ConditionalOperator':
            vs = []
            for s, b in self.cond(n['inner'][0], st.copy()):
                try:
                    vs.append(self.ev(n['inner'][1 if b else 2], s))
                except Dead:
                    pass
            if vs and all(vkey(v) == vkey(vs[0]) for v in vs):
                return vs[0]
            if vs and all(v[0] == 'i' for v in vs):
                return ('i', sym(f'?{next(self.n)}'))
            return ('u',)
        if k == 'CallExpr':
            return self.call(n, st)
        if k == 'InitListExpr':
            for c in n.get('inner', ()):
                v = self.ev(c, st)
                if v[0] == 'p':
                    st.escaped = st.escaped | {v[1]}
            return ('u',)
        if k == 'StmtExpr':
            raise Unsupported('statement expression')
        for c in n.get('inner', ()):
            if c.get('kind'):
                self.ev(c, st)
        return ('u',)

    def unary(self, n, st):
        op = n['opcode']
        x = n['inner'][0]
        if op == '&':
            t = strip(x)
            if t.get('kind') == 'ArraySubscriptExpr':
                b = self.ev(t['inner'][0], st)
                i = self.ev(t['inner'][1], st)
                if b[0] == 'p':
                    self.use(b, st, t, 'pointed into')
                    return ('p', b[1], add(b[2], i[1]) if b[2] is not None and i[0] == 'i' else None)
                return ('u',)
            if t.get('kind') == 'DeclRefExpr':
                key = self.key(t)
                sz = sizeof(typ(t))
                k = f'scalar {t["referencedDecl"]["name"]}'
                st.heap.setdefault(k, Obj('ok', aff(sz) if sz else None, 'stack', 0))
                if st.env.get(key, ('u',))[0] == 'i':
                    st.env[key] = ('i', sym(f'?{next(self.n)}'))
                return ('p', k, aff(0))
            return ('u',)
        if op == '*':
            return self.access(n, st, 'read')
        v = self.ev(x, st)
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            new = ('i', add(v[1], aff(d))) if v[0] == 'i' else ('p', v[1], add(v[2], aff(d)) if v[2] is not None else None) if v[0] == 'p' else v
            self.store(x, new, st, read=False)
            return v if n.get('isPostfix') else new
        if op == '-' and v[0] == 'i':
            return ('i', mul(v[1], -1))
        if op == '+':
            return v
        if v[0] == 'i' and op in ('~', '!'):
            return ('i', sym(f'?{next(self.n)}'))
        return ('u',)

    def arith(self, op, a, b, n):
        if a[0] == 'p' and b[0] == 'i' and op in ('+', '-'):
            return ('p', a[1], add(a[2], b[1], 1 if op == '+' else -1) if a[2] is not None else None)
        if b[0] == 'p' and a[0] == 'i' and op == '+':
            return ('p', b[1], add(b[2], a[1]) if b[2] is not None else None)
        if a[0] == 'i' and b[0] == 'i':
            if op in ('+', '-'):
                return ('i', add(a[1], b[1], 1 if op == '+' else -1))
            if op == '*':
                if isconst(a[1]):
                    return ('i', mul(b[1], cval(a[1])))
                if isconst(b[1]):
                    return ('i', mul(a[1], cval(b[1])))
            if op in ('/', '>>', '<<') and isconst(b[1]) and cval(b[1]) > 0:
                d = cval(b[1]) if op == '/' else 2 ** int(cval(b[1]))
                if op == '<<':
                    return ('i', mul(a[1], d))
                q = sym(f'quot.{next(self.n)}')
                return ('i', q, a[1], d)
            return ('i', sym(f'?{next(self.n)}'))
        return ('u',)

    def binary(self, n, st):
        op = n['opcode']
        if op == '=':
            v = self.cast(self.ev(n['inner'][1], st), typ(n['inner'][0]), st)
            self.store(n['inner'][0], v, st)
            return v
        if op == ',':
            self.ev(n['inner'][0], st)
            return self.ev(n['inner'][1], st)
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            for s, b in self.cond(n, st.copy()):
                pass
            return ('i', sym(f'?{next(self.n)}'))
        a, b = self.ev(n['inner'][0], st), self.ev(n['inner'][1], st)
        v = self.arith(op, a, b, n)
        if len(v) == 4:           # a quotient: d*q <= a <= d*q + d-1  (a >= 0)
            _, q, x, d = v
            if implied(st.cons, x):
                st.cons += [add(x, q, -d), add(add(mul(q, d), aff(d - 1)), x, -1)]
            v = ('i', q)
        if typ(n) in FLOATS:
            return ('u',)
        return v

    def store(self, target, v, st, read=True):
        t = strip(target)
        k = t.get('kind')
        if k == 'DeclRefExpr':
            st.env[self.key(t)] = v if v[0] != 'i' or isint(typ(t)) else ('u',)
        elif k in ('ArraySubscriptExpr',) or (k == 'UnaryOperator' and t.get('opcode') == '*'):
            self.access(t, st, 'write', v)
        elif k == 'MemberExpr':
            self.ev(t['inner'][0], st)
            if v[0] == 'p':
                st.escaped = st.escaped | {v[1]}
        else:
            for c in t.get('inner', ()):
                self.ev(c, st)

    def use(self, p, st, n, how):
        """the object a pointer leads to is about to be used"""
        if p[0] == 'uninit':
            self.bad('pointer used before it is set', f'{self.cur} {self.text(n)}', n.get('_line'), f'{self.text(n)} has no value yet', self.cur)
            return False
        if p[0] == 'null':
            self.bad('null pointer used', f'{self.cur} {self.text(n)}', n.get('_line'), f'{self.text(n)} is null here', self.cur)
            return False
        if p[0] != 'p':
            return False
        o = st.heap.get(p[1])
        if o is None:
            return False
        row = isinstance(p[1], tuple)
        if o.state in ('raw', 'null'):
            self.bad('allocation not checked', f'{self.cur} {self.text(n)}', n.get('_line'),
                     f'{how} before the result of the allocation at line {o.site[1]} of {o.site[0]} is compared with NULL', self.cur)
            st.heap[p[1]] = o.but(state='ok')
            return False
        if o.state == 'freed' and not (row and self.second):
            self.bad('used after release', f'{self.cur} {self.text(n)}', n.get('_line'), f'{how} after it was released', self.cur)
            return False
        self.proved('use')
        return True

    def text(self, n):
        n = strip(n)
        if n.get('kind') == 'DeclRefExpr':
            return n['referencedDecl']['name']
        if n.get('kind') == 'ArraySubscriptExpr':
            return self.text(n['inner'][0]) + '[' + self.text(n['inner'][1]) + ']'
        if n.get('kind') == 'IntegerLiteral':
            return n['value']
        if n.get('kind') == 'BinaryOperator':
            return self.text(n['inner'][0]) + n['opcode'] + self.text(n['inner'][1])
        if n.get('kind') == 'UnaryOperator':
            return n['opcode'] + self.text(n['inner'][0])
        if n.get('kind') == 'CallExpr':
            return self.text(n['inner'][0]) + '()'
        return '..'

    def access(self, n, st, mode, v=None):
        if n['kind'] == 'ArraySubscriptExpr':
            b, i = self.ev(n['inner'][0], st), self.ev(n['inner'][1], st)
            if b[0] == 'i' and i[0] == 'p':
                b, i = i, b
        else:
            b, i = self.ev(n['inner'][0], st), ('i', aff(0))
        if b[0] == 'fnptr' or b[0] == 'fn':
            return b
        el = typ(n)
        if self.use(b, st, n['inner'][0], 'read' if mode == 'read' else 'written'):
            o = st.heap[b[1]]
            self.bounds(b, i, o, sizeof(el), n, st)
            idx = add(b[2], i[1]) if b[2] is not None and i[0] == 'i' else None
            if mode == 'write':
                self.writes(b[1], idx)
            elif b[0] == 'p' and (pointee(el) is None or '(' in el):
                self.reads(b, st, n, None, 'read', idx)
        if b[0] != 'p':
            return ('u',)
        row = (b[1], 'row')
        if pointee(el) is not None and '(' not in el:
            if mode == 'write':
                if v[0] == 'p' and st.heap.get(v[1]) is not None:
                    src = st.heap[v[1]]
                    lp = st.env.get('$loop')
                    if st.heap.get(b[1]) is not None and st.heap[b[1]].kind in ('param', 'global', 'stack') and row not in st.heap:
                        st.escaped = st.escaped | {v[1]}
                    elif not self.second:
                        st.heap[row] = src.but(kind=src.kind)
                        del st.heap[v[1]]
                        for kk, vv in list(st.env.items()):
                            if vv[0] == 'p' and vv[1] == v[1]:
                                st.env[kk] = ('p', row, vv[2])
                    else:
                        # one more row like the others
                        if src.state in ('raw', 'null'):
                            st.heap[row] = src
                        st.heap.pop(v[1], None)
                        for kk, vv in list(st.env.items()):
                            if vv[0] == 'p' and vv[1] == v[1]:
                                st.env[kk] = ('p', row, vv[2])
                elif v[0] == 'null' and row in st.heap and st.heap[row].state == 'freed':
                    pass
                return v
            if row in st.heap:
                return ('p', row, aff(0))
            return ('u',)
        if mode == 'read' and isint(el):
            return ('i', sym(f'?{next(self.n)}'))
        return ('u',)

    def bounds(self, b, i, o, sz, n, st):
        self.accesses += 1
        name = f'{self.cur} {self.text(n)} line {n.get("_line")}'
        if o.bytes is None or sz is None or b[2] is None or i[0] != 'i':
            if o.kind != 'stack':
                self.note(f'bounds {self.cur} {self.text(n)}', 'size or index not an affine form')
            return
        idx = add(b[2], i[1])
        for goal, what in ((idx, 'before the start'), (add(add(o.bytes, idx, -sz), aff(sz), -1), 'past the end')):
            goal = mul(goal, 1 / Fraction(sz)) if what == 'past the end' else goal
            if implied(st.cons, goal):
                self.proved('bound')
                continue
            names = relevant(st.cons, goal)[1]
            w = None if st.loose or any(x.startswith('?') for x in names) else witness(st.cons, goal)
            if w is not None:
                show = ', '.join(f'{k.split(".")[0]}={v}' for k, v in w.items())
                self.bad('access outside the buffer', f'{self.cur} {self.text(n)}', n.get('_line'), f'{what} for {show}', self.cur)
            else:
                self.note(f'bounds {self.cur} {self.text(n)}', f'{what} not excluded by the tests and loop bounds')

    # ---- calls
    def callee(self, n):
        f = strip(n['inner'][0])
        while f.get('kind') == 'UnaryOperator' and f.get('opcode') in ('*', '&'):
            f = strip(f['inner'][0])
        if f.get('kind') == 'DeclRefExpr' and f['referencedDecl']['kind'] == 'FunctionDecl':
            return f['referencedDecl']['name'], f
        return None, f

    def inlined(self, n):
        name, _ = self.callee(n)
        return name in self.funcs and name not in LEN and self.depth < 6

    def inline(self, n, st):
        """[(state, value)] of the returns of a helper"""
        name, _ = self.callee(n)
        d = self.funcs[name]
        ps = [p for p in d['inner'] if p.get('kind') == 'ParmVarDecl']
        try:
            vals = [self.ev(a, st) for a in n['inner'][1:]]
        except Dead:
            return []
        for p, v in zip(ps, vals):
            st.env[p['id']] = self.cast(v, typ(p), st)
            self.varname[p['id']] = p.get('name', '?')
        saved, self.depth = (self.cur, self.second), self.depth + 1
        lp = st.env.pop('$loop', None)
        self.cur = name
        try:
            outs = self.run_body(d, st)
        finally:
            self.cur, self.second = saved
            self.depth -= 1
        if self.depth > 5:
            raise Unsupported('call depth')
        for s, v in outs:
            if lp is not None:
                s.env['$loop'] = lp
        return outs

    def call(self, n, st):
        name, f = self.callee(n)
        args = n['inner'][1:]
        if name in ('malloc', 'calloc'):
            vs = [self.ev(a, st) for a in args]
            if name == 'calloc':
                v = self.arith('*', vs[0], vs[1], n)
                vs = [v]
            k = f'heap {next(self.n)}'
            b = vs[0][1] if vs[0][0] == 'i' and not any(x.startswith('?') for x in vs[0][1]) else None
            if name == 'calloc':
                self.written[k] = 'all'
            st.heap[k] = Obj('raw', b, 'local', (self.where.get(self.cur, '?'), n.get('_line')))
            return ('p', k, aff(0))
        if name == 'realloc':
            raise Unsupported('realloc')
        if name == 'free':
            v = self.ev(args[0], st)
            self.release(v, st, args[0], n)
            return ('u',)
        if name in DIES:
            for a in args:
                self.ev(a, st)
            raise Dead()
        if name in self.funcs and name not in LEN:
            if self.depth >= 6:
                raise Unsupported('call depth')
            outs = self.inline(n, st)
            if not outs:
                raise Dead()
            s, v = outs[0]
            if len(outs) > 1 and len({(tuple(sorted((str(k), o.state) for k, o in x.heap.items())), vkey(w)) for x, w in outs}) > 1:
                raise Unsupported('a helper with several outcomes inside an expression')
            st.env, st.heap, st.cons, st.loose, st.escaped = s.env, s.heap, s.cons, s.loose, s.escaped
            return v
        vals = [self.ev(a, st) for a in args]
        fv = None if name else self.ev(f, st)
        if fv is not None and fv[0] == 'fn':
            name = fv[1]
        for a, v in zip(args, vals):
            if v[0] in ('p', 'uninit', 'null') and not (v[0] == 'null' and name not in LEN):
                self.use(v, st, a, f'given to {name or self.text(f)}')
        if name in LEN and name in self.funcs:
            self.contract(name, args, vals, n, st)
        elif name is None and self.root in DIM:
            dim = self.value(DIM[self.root], st)
            for j, (a, v) in enumerate(zip(args, vals)):
                self.length(v, dim, a, st, f'given to {self.text(f)}')
                if j == 0 and dim is not None:
                    self.reads(v, st, a, dim, f'given to {self.text(f)}')
                self.filled(v, st)
        else:
            for v in vals:
                self.filled(v, st)
        # scalars whose address was given may have changed
        for a, v in zip(args, vals):
            t = strip(a)
            if t.get('kind') == 'UnaryOperator' and t.get('opcode') == '&' and strip(t['inner'][0]).get('kind') == 'DeclRefExpr':
                key = self.key(strip(t['inner'][0]))
                if st.env.get(key, ('u',))[0] == 'i':
                    st.env[key] = ('i', sym(f'?{next(self.n)}'))
        return ('i', sym(f'?{next(self.n)}')) if isint(typ(n)) else ('u',)

    def value(self, name, st):
        """an integer parameter or global by name"""
        for p in self.funcs[self.root]['inner']:
            if p.get('kind') == 'ParmVarDecl' and p.get('name') == name:
                v = st.env.get(p['id'], ('u',))
                return v[1] if v[0] == 'i' else None
        v = st.env.get(('g', name), ('i', sym(name)))
        return v[1] if v[0] == 'i' else None

    def contract(self, name, args, vals, n, st):
        d = self.funcs[name]
        ps = [p for p in d['inner'] if p.get('kind') == 'ParmVarDecl']
        env = {g: (st.env.get(('g', g), ('i', sym(g)))[1] if st.env.get(('g', g), ('i', 0))[0] == 'i' else None)
               for g in ('nbath', 'nmats', 'ncom')}
        for p, v in zip(ps, vals):
            if v[0] == 'i':
                env[p.get('name')] = v[1]
        for p, a, v in zip(ps, args, vals):
            need = LEN[name].get(p.get('name'))
            if need is not None:
                self.length(v, ev_text(need, env), a, st, f'given to {name}')
                if p.get('name') in IN.get(name, ()) and ev_text(need, env) is not None:
                    self.reads(v, st, a, ev_text(need, env), f'given to {name}')
            self.filled(v, st)
            if v[0] == 'fn' and v[1] in LEN and name in DIM:
                dim = env.get(DIM[name])
                for q in LEN[v[1]].values():
                    want = ev_text(q, env)
                    if dim is not None and want is not None:
                        self.fits(add(dim, want, -1), a, st, f'{name} calls {v[1]} with vectors of its own size')
        used = set()
        for x in [name] + [v[1] for v in vals if v[0] == 'fn']:
            if x.startswith(('eval_', 'init_')):
                used.add('eval')
            if x in ('f1dim', 'df1dim'):
                used.add('dim')
        for g, kind in GUSED.items():
            v = st.env.get(('g', g))
            if kind in used and v is not None and v[0] == 'p' and not str(v[1]).startswith('global'):
                self.use(v, st, {'kind': 'DeclRefExpr', 'referencedDecl': {'name': g}, '_line': n.get('_line')}, f'used by {name}')
                need = ev_text(GLEN[g][0], env)
                self.length(v, need, {'kind': 'DeclRefExpr', 'referencedDecl': {'name': g}, '_line': n.get('_line'), 'type': {}},
                            st, f'used by {name}', GSIZE.get(g))
                if g in GIN and need is not None:
                    self.reads(v, st, {'kind': 'DeclRefExpr', 'referencedDecl': {'name': g}, '_line': n.get('_line'), 'type': {}}, need,
                               f'used by {name}')
                if len(GLEN[g]) > 1 and (v[1], 'row') in st.heap:
                    self.use(('p', (v[1], 'row'), aff(0)), st, {'kind': 'DeclRefExpr', 'referencedDecl': {'name': g + ' rows'},
                                                                '_line': n.get('_line'), 'type': {}}, f'used by {name}')
                    self.length(('p', (v[1], 'row'), aff(0)), ev_text(GLEN[g][1], env),
                                {'kind': 'DeclRefExpr', 'referencedDecl': {'name': g + ' rows'}, '_line': n.get('_line'), 'type': {}},
                                st, f'used by {name}', 16)

    def length(self, v, need, a, st, how, sz=None):
        if v[0] != 'p' or need is None:
            return
        o = st.heap.get(v[1])
        t = pointee(typ(strip(a))) if sz is None else None
        sz = sz or sizeof(t)
        if o is None or o.bytes is None or sz is None or v[2] is None:
            return
        self.fits(add(add(mul(o.bytes, 1 / Fraction(sz)), v[2], -1), need, -1), a, st, how)

    def fits(self, goal, a, st, how):
        if implied(st.cons, goal):
            self.proved('length')
            return
        names = relevant(st.cons, goal)[1]
        w = None if st.loose or any(x.startswith('?') for x in names) else witness(st.cons, goal)
        if w is not None:
            self.bad('buffer shorter than its user needs', f'{self.cur} {self.text(a)}', a.get('_line'),
                     f'{how}: too short for ' + ', '.join(f'{k.split(".")[0]}={v}' for k, v in w.items()), self.cur)
        else:
            self.note(f'length {self.cur} {self.text(a)}', 'not decided')

    def release(self, v, st, a, n):
        if v[0] == 'null':
            return
        if v[0] != 'p':
            if v[0] == 'uninit':
                self.use(v, st, a, 'released')
            return
        o = st.heap.get(v[1])
        if o is None:
            return
        if o.kind == 'stack' or (o.kind == 'param' and self.cur == self.root and self.root in LEN):
            self.bad('released memory it does not own', f'{self.cur} {self.text(a)}', n.get('_line'), 'not allocated by this code', self.cur)
            return
        if v[2] is None or v[2]:
            if v[2] is not None:
                self.bad('released at an offset', f'{self.cur} {self.text(a)}', n.get('_line'), 'not the address that was allocated', self.cur)
            return
        row = isinstance(v[1], tuple)
        if o.state == 'freed' and not (row and self.second):
            self.bad('released twice', f'{self.root} {self.text(a)}', n.get('_line'), 'already released on this path', self.cur)
            return
        base = v[1][0] if row else v[1]
        if row and st.heap.get(base) is not None and st.heap[base].state == 'freed':
            self.bad('used after release', f'{self.root} {self.text(a)}', n.get('_line'), 'the table of rows is already released', self.cur)
        if row:
            lp = st.env.get('$loop')
            if lp is None:
                # one row only: the others stay
                return
            alloc = o.bytes
        r = st.heap.get((v[1], 'row'))
        if not row and r is not None and r.state == 'ok' and r.kind == 'local':
            self.bad('allocation not released', f'{self.root} {self.text(a)}', n.get('_line'),
                     'the table of rows is released before the rows', self.cur)
            st.heap[(v[1], 'row')] = r.but(state='freed')
        if row and lp is not None:
            tab = st.heap.get(base)
            lo, hi = lp[2], lp[3]
            if tab is not None and tab.bytes is not None and lo is not None and hi is not None:
                rows = mul(tab.bytes, Fraction(1, 8))
                if add(lo, aff(0)) or add(hi, rows, -1):
                    d = add(hi, rows, -1)
                    if not st.loose and (not implied(st.cons, d) or not implied(st.cons, mul(d, -1)) or lo):
                        w = next((x for x in (witness(st.cons, d), witness(st.cons, mul(d, -1))) if x is not None),
                                 {'first row': cval(lo)} if lo else None)
                        if w is not None and not any(str(x).startswith('?') for x in w):
                            self.bad('allocation not released', f'{self.root} {self.text(a)}', n.get('_line'),
                                     'the rows released are not the rows allocated', self.cur)
        st.heap[v[1]] = o.but(state='freed')
        self.proved('release')


GSIZE = {'vals_true': 16, 'delta': 16, 'z': 16, 'pcom': 8, 'xicom': 8, 'ddelta': 8}


def run(ctx):
    decls = {r: ds for r, ds in ctx.C.prog.cdecls.items() if not isinstance(ds, str)}
    for r, why in ctx.C.prog.errors:
        if r.endswith('.c'):
            ctx.undecided_(f'file {r}', why)
    allocs = 0
    base = Analysis(decls)
    for name in sorted(base.funcs):
        a = Analysis(decls)
        try:
            a.function(name)
        except (Unsupported, RecursionError, KeyError, IndexError) as e:
            ctx.undecided_(f'{base.where[name]} {name}', f'{type(e).__name__} {e}')
            continue
        for (rule, construct), (where, text) in a.findings.items():
            ctx.violated(rule, construct, f'{ctx.repo}/{where}', text)
        for what, why in a.notes.items():
            ctx.undecided_(what, why)
        if not a.findings:
            ctx.holds(f'{base.where[name]} {name}', ', '.join(f'{v} {k}s' for k, v in sorted(a.done.items())) or 'no heap objects')
