"""Applies every rewrite of refactor.py to every function and reports alarms."""
import sys, time, collections, multiprocessing as mp, os, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent.parent))
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)
import refactor
from engine.compare import Comparer
from engine.program import pyx_to_py
from engine.terms import show_short
from engine import laws
from engine.compare import first_difference
HOME = pathlib.Path(__file__).resolve().parent.parent.parent


def one(job):
    rel, tname, qn, text, qs = job
    out = []
    t = time.time()
    try:
        C = Comparer(str(HOME / 'model'), '/repo', overrides={rel: text}, steps=300000, budget=30)
        for q in qs:
            if q not in C.R.funcs or q in laws.SLOW:
                continue
            st, d = C.verdict(q)
            if st == 'VIOLATED':
                k, x, y = d['diff'][0]
                a, b = first_difference(x, y) if x is not None and y is not None else (x, y)
                d = '%s: %s | %s' % (k, show_short(a, 40, 200) if a is not None else None, show_short(b, 40, 200) if b is not None else None)
            elif st == 'UNDECIDED':
                d = d.get('why')
            else:
                d = ''
            out.append((q, st, str(d)[:500]))
    except Exception as e:
        out.append(('?', 'CRASH', repr(e)[:300]))
    return tname, rel, qn, out, time.time() - t


def main():
    only = set(sys.argv[1].split(',')) if len(sys.argv) > 1 and sys.argv[1] != '-' else None
    mods = sys.argv[2].split(',') if len(sys.argv) > 2 else None
    base = Comparer(str(HOME / 'model'), '/repo')
    jobs = []
    for m in base.C.prog.modules.values():
        if mods and m.name.split('.')[-1] not in mods:
            continue
        src = m.source if m.kind == 'py' else pyx_to_py(m.source)
        for tname, qn, text in refactor.variants(src):
            if only and tname not in only:
                continue
            full = f'{m.name}.{qn}'
            jobs.append((m.relpath, tname, qn, text, [full]))
    print(len(jobs), 'variants', flush=True)
    cnt = collections.defaultdict(collections.Counter)
    bad = []
    with mp.get_context('fork').Pool(8, maxtasksperchild=20) as p:
        for tname, rel, qn, out, t in p.imap_unordered(one, jobs, chunksize=4):
            for q, st, d in out:
                cnt[tname][st] += 1
                if st != 'HOLDS':
                    bad.append((st, tname, q, d, round(t, 1)))
    for t, c in sorted(cnt.items()):
        print(t, dict(c))
    bad.sort()
    with open('/tmp/refactor_bad.txt', 'w') as f:
        for b in bad:
            print(*b, sep=' | ', file=f)
    print(len([b for b in bad if b[0] == 'VIOLATED']), 'alarms')


main()
