"""Mutation runner: how many small changes of meaning do the laws see?
python3 mutate.py N [seed] [qual-prefix ...]   prints every mutant that is not VIOLATED (equivalent, undecided or missed)"""
import ast, copy, random, sys, pathlib, multiprocessing as mp, time
HOME = pathlib.Path(__file__).resolve().parent.parent.parent
sys.path.insert(0, str(HOME))
sys.setrecursionlimit(20000)
REPO = '/repo'
from engine import laws
from engine.program import Program
from engine.compare import Comparer

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
        ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.And: ast.Or, ast.Or: ast.And, ast.BitAnd: ast.BitOr,
        ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.BitOr: ast.BitAnd}


def sites(fn):
    out = []
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})
    for k, n in enumerate(ast.walk(fn)):
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((k, 'op'))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            out.append((k, 'cmp'))
        if isinstance(n, ast.BoolOp):
            out.append((k, 'bool'))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((k, 'const'))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((k, 'args'))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            out.append((k, 'name'))
        if isinstance(n, ast.AugAssign):
            out.append((k, 'aug'))
        if isinstance(n, ast.If):
            out.append((k, 'neg'))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1:
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((k, f'drop {f} {j}'))
                    if j + 1 < len(b) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b[j + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
                        out.append((k, f'order {f} {j}'))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            out.append((k, 'idx'))
        if isinstance(n, (ast.Break, ast.Continue)):
            out.append((k, 'jump'))
    return out, names


def mutate(fn, k, kind, rnd, names):
    fn = copy.deepcopy(fn)
    n = list(ast.walk(fn))[k]
    if kind == 'op':
        n.op = SWAP[type(n.op)]()
    elif kind == 'cmp':
        n.ops = [SWAP[type(n.ops[0])]()]
    elif kind == 'bool':
        n.op = SWAP[type(n.op)]()
    elif kind == 'const':
        n.value = n.value + rnd.choice([1, -1]) if n.value != 0 else 1
    elif kind == 'args':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'name':
        n.id = rnd.choice([x for x in names if x != n.id])
    elif kind == 'aug':
        t = copy.deepcopy(n)
        new = ast.Assign([n.target], n.value)
        for p in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(new, n)
    elif kind == 'neg':
        n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
    elif kind.startswith('drop'):
        _, f, j = kind.split()
        b = getattr(n, f)
        b[int(j)] = ast.copy_location(ast.Pass(), b[int(j)])
    elif kind.startswith('order'):
        _, f, j = kind.split()
        b = getattr(n, f)
        j = int(j)
        b[j], b[j + 1] = b[j + 1], b[j]
    elif kind == 'idx':
        e = n.slice.elts
        e[0], e[1] = e[1], e[0]
    elif kind == 'jump':
        for p in ast.walk(fn):
            for f in ('body', 'orelse'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    return ast.fix_missing_locations(fn)


class Sub(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def job(a):
    q, k, kind, seed = a
    prog = Program(REPO)
    f = laws.functions(prog)[q]
    rnd = random.Random(seed)
    _, names = sites(f.node)
    new = mutate(f.node, k, kind, rnd, names)
    a0, b0 = ast.unparse(f.node).split('\n'), ast.unparse(new).split('\n')
    import difflib
    dl = [l for l in difflib.unified_diff(a0, b0, lineterm='', n=0) if not l.startswith(('---', '+++', '@@'))]
    if not dl:
        return a, 'SAME', [], 0
    tree = Sub(f.node, new).visit(f.module.tree)
    src = ast.unparse(tree)
    t = time.time()
    try:
        C = Comparer(str(HOME / 'model'), REPO, overrides={f.module.relpath: src})
        st, d = C.verdict(q)
        why = str(d.get('why'))[:150] if st == 'UNDECIDED' else ''
    except Exception as e:
        st, why = 'CRASH', f'{type(e).__name__} {e}'
    return a, st, dl, why


def main():
    n = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    want = sys.argv[3:]
    rnd = random.Random(seed)
    prog = Program(REPO)
    pats = sorted({p for v in laws.LAWS.values() for p in v if not p.startswith('c:')})
    qs = [q for q, f in laws.functions(prog).items() if any(laws.match(p, q) for p in pats) and isinstance(f.node, ast.FunctionDef)
          and f.module.kind == 'py' and (not want or any(q.startswith(w) for w in want)) and not q.endswith('.__repr__')]
    funcs = laws.functions(prog)
    allsites = [(q, k, kind) for q in qs for k, kind in sites(funcs[q].node)[0]]
    # the same weight for every function
    byq = {}
    for s in allsites:
        byq.setdefault(s[0], []).append(s)
    jobs = []
    while len(jobs) < n and byq:
        for q in list(byq):
            if not byq[q]:
                del byq[q]
                continue
            s = byq[q].pop(rnd.randrange(len(byq[q])))
            jobs.append((*s, rnd.randrange(10**6)))
            if len(jobs) >= n:
                break
    tot = {}
    with mp.get_context('fork').Pool(8, maxtasksperchild=8) as p:
        for a, st, dl, why in p.imap_unordered(job, jobs):
            tot[st] = tot.get(st, 0) + 1
            if st not in ('VIOLATED', 'SAME'):
                print(st, a[0], a[2], why, *[x.replace('    ', ' ') for x in dl[:6]], sep='\n     ')
                sys.stdout.flush()
    print(len(jobs), tot)


if __name__ == '__main__':
    main()
