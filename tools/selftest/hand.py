"""Hand written behaviour-preserving edits: (name, file, [(old, new), ...]).
run:  python3 tools/selftest/hand.py [name ...]    reports every verdict that is not HOLDS"""
import sys, pathlib, time, multiprocessing as mp
HOME = pathlib.Path(__file__).resolve().parent.parent.parent
sys.path.insert(0, str(HOME))
sys.setrecursionlimit(20000)
REPO = pathlib.Path('/repo')
EDITS = []


def edit(name, file, *pairs):
    EDITS.append((name, file, pairs))


def load():
    for p in sorted((HOME / 'tools/selftest').glob('hand_*.py')):
        exec(compile(p.read_text(), str(p), 'exec'), {'edit': edit})


def run(job):
    from engine.compare import Comparer, first_difference
    from engine.terms import show_short
    from engine import laws
    name, file, pairs = job
    src = (REPO / file).read_text()
    for old, new in pairs:
        if src.count(old) < 1:
            import re
            rx = r'[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) for l in old.split('\n') if l.strip())
            m = re.search(rx, src)
            if not m:
                return name, [('-', 'NOMATCH', old)]
            src = src[:m.start()] + new.rstrip('\n') + src[m.end():]
            continue
        src = src.replace(old, new)
    out = []
    try:
        C = Comparer(str(HOME / 'model'), str(REPO), overrides={file: src})
        mod = [m for m in C.C.prog.modules.values() if m.relpath == file][0]
        for q, f in C.R.funcs.items():
            if f.module.relpath != file:
                continue
            g = C.C.funcs.get(q)
            import ast
            if g is not None and ast.dump(g.node) == ast.dump(f.node):
                continue
            st, d = C.verdict(q)
            if st == 'VIOLATED':
                k, x, y = d['diff'][0]
                a, b = first_difference(x, y) if x is not None and y is not None else (x, y)
                d = '%s (%s)\n      R %s\n      C %s' % (k, d.get('statements'), show_short(a, 40, 600) if a is not None else None,
                                                  show_short(b, 40, 600) if b is not None else None)
            elif st == 'UNDECIDED':
                d = str(d.get('why'))[:300]
            out.append((q, st, d))
        if not out:
            out.append(('-', 'NOCHANGE', ''))
    except Exception as e:
        import traceback
        out.append(('?', 'CRASH', traceback.format_exc()[-600:]))
    return name, out


def main():
    load()
    want = sys.argv[1:]
    jobs = [e for e in EDITS if not want or any(e[0].startswith(w) for w in want)]
    n = {}
    with mp.get_context('fork').Pool(8, maxtasksperchild=4) as p:
        for name, out in p.imap(run, jobs):
            for q, st, d in out:
                n[st] = n.get(st, 0) + 1
                if st != 'HOLDS' or want:
                    print(name, q, st, d if st != 'HOLDS' else '')
    print(len(jobs), 'edits', n)


if __name__ == '__main__':
    main()
