"""Runs the analyses registered for one property and reports."""
import json, multiprocessing as mp, os, pathlib, sys, time, traceback
from . import laws, registry
from .compare import Comparer, first_difference
from .terms import show_short

sys.setrecursionlimit(20000)
NPROC = min(8, os.cpu_count() or 1)


class Finding:
    def __init__(self, rule, construct, where, text):
        self.rule, self.construct, self.where, self.text = rule, construct, where, text

    def key(self):
        return f'{self.rule} {self.construct}'

    def __str__(self):
        return f'{self.rule}: {self.construct} at {self.where}: {self.text}'


class Ctx:
    """what the analyses of one run share"""

    def __init__(self, home, repo, prop, thorough):
        self.home, self.repo, self.prop, self.thorough = pathlib.Path(home), pathlib.Path(repo), prop, thorough
        self.findings = []
        self.obligations = []     # (name, status)
        self.undecided = []       # (name, why)
        self.notes = []
        self.cmp = Comparer(str(self.home / 'model'), str(self.repo), steps=1500000 if thorough else 500000,
                            budget=240.0 if thorough else 90.0,
                            with_c=True)
        self.R, self.C = self.cmp.R, self.cmp.C

    def holds(self, name, how=''):
        self.obligations.append((name, 'holds', how))

    def undecided_(self, name, why):
        self.obligations.append((name, 'undecided', why))

    def violated(self, rule, construct, where, text):
        self.obligations.append((f'{rule} {construct}', 'violated', text))
        self.findings.append(Finding(rule, construct, where, text))


_ctx = None


def _law(q):
    try:
        st, d = _ctx.cmp.verdict(q)
    except Exception as e:            # engine limitation: never an alarm
        return q, 'UNDECIDED', f'engine {type(e).__name__}: {e}', None
    if st == 'VIOLATED':
        out = []
        for k, x, y in d['diff']:
            a, b = first_difference(x, y) if x is not None and y is not None else (x, y)
            out.append((k, show_short(a) if a is not None else 'nothing', show_short(b) if b is not None else 'nothing',
                        d['locs'].get(k)))
        return q, st, out, None
    return q, st, d.get('why') if st == 'UNDECIDED' else d.get('level'), None


def law_functions(prop, ctx):
    pats = laws.LAWS.get(prop, [])
    qs = [q for q in ctx.R.funcs if any(laws.match(p, q) for p in pats)]
    return sorted(qs)


def run_laws(ctx, prop):
    global _ctx
    _ctx = ctx
    qs = law_functions(prop, ctx)
    if not qs:
        return
    first = [q for q in qs if q in laws.SLOW]
    qs = first + [q for q in qs if q not in laws.SLOW]
    with mp.get_context('fork').Pool(NPROC, maxtasksperchild=1) as pool:
        res = list(pool.imap_unordered(_law, qs, chunksize=1))
    for q, st, d, _ in sorted(res, key=lambda r: r[0]):
        f = ctx.C.funcs.get(q)
        where = f'{f.module.path}:{f.node.lineno}' if f is not None else '?'
        if st == 'HOLDS':
            ctx.holds(f'law {q}', d)
        elif st == 'UNDECIDED':
            ctx.undecided_(f'law {q}', d)
        else:
            txt = '; '.join(f'{k}{" (line %s)" % l[1] if isinstance(l, tuple) else ""}: reference {a} / current {b}' for k, a, b, l in d)
            ctx.violated('law', q, where, txt)


def known(home, prop):
    """known findings of this property: keys that are reported but not alarms"""
    out = {}
    for l in (home / 'known_findings.txt').read_text().splitlines():
        l = l.strip()
        if l.startswith('finding: property=' + prop + ' '):
            body = l.split(' ', 2)[2]
            key, _, text = body.partition(' :: ')
            out[key.strip()] = text.strip()
    return out


def run(home, repo, prop, thorough, verbose=False):
    t0 = time.time()
    ctx = Ctx(home, repo, prop, thorough)
    spec = registry.PROPERTIES[prop]
    missing = []
    run_laws(ctx, prop)
    for fn in spec['analyses']:
        fn(ctx)
    # a check that looks at nothing proves nothing
    if len(ctx.obligations) < spec['floor']:
        print(f'ANALYSIS-BROKEN property={prop}: only {len(ctx.obligations)} obligations found, {spec["floor"]} expected')
        return 2
    kf = known(home, prop)
    alarms = []
    for f in ctx.findings:
        if f.key() in kf:
            print(f'KNOWN-FINDING: property={prop} {f.key()} {kf[f.key()]}')
        else:
            alarms.append(f)
    n = {s: sum(1 for o in ctx.obligations if o[1] == s) for s in ('holds', 'undecided', 'violated')}
    cov = {
        'explanation': spec['explanation'],
        'obligations': len(ctx.obligations), 'discharged': n['holds'], 'undecided': n['undecided'],
        'rules': spec['rules'],
        'functions_analysed': sorted({o[0].split(' ', 1)[1] for o in ctx.obligations if o[0].startswith('law ')}),
        'undecided_list': [f'{o[0]}: {str(o[2])[:300]}' for o in ctx.obligations if o[1] == 'undecided'],
        'samples': [f'{o[0]}: {str(o[2])[:200]}' for o in ctx.obligations if o[1] == 'holds' and not o[0].startswith('law ')][:40],
        'modules_parsed': len(ctx.C.prog.modules),
        'notes': ctx.notes[:40],
    }
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': spec['level'], 'coverage': cov, 'assumptions': spec['assumptions'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(alarms)}
    evd = home / 'evidence'
    evd.mkdir(exist_ok=True)
    rp = evd / f'{prop}.violations.txt'
    if alarms:
        rp.write_text('\n'.join(str(f) for f in alarms) + '\n')
    elif rp.exists():
        rp.unlink()
    (evd / f'{prop}.json').write_text(json.dumps(ev, indent=1) + '\n')
    if verbose:
        for o in ctx.obligations:
            print(o[1], o[0], str(o[2])[:200])
    print(f'property={prop} obligations={len(ctx.obligations)} holds={n["holds"]} undecided={n["undecided"]} '
          f'violated={n["violated"]} wall={ev["wall_s"]}s')
    for f in alarms:
        print(str(f)[:2000])
    if alarms:
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    return 0
