"""Runs the analyses (not the laws) over every hand-written behaviour-preserving edit: python3 analyses.py [pid ...]"""
import sys, pathlib, multiprocessing as mp
HOME = pathlib.Path(__file__).resolve().parent.parent.parent
sys.path.insert(0, str(HOME)); sys.path.insert(0, str(HOME / 'tools/selftest'))
sys.setrecursionlimit(20000)
import hand
from engine import registry, runner
from engine.compare import Comparer


def job(e):
    name, file, pairs = e
    src = (hand.REPO / file).read_text()
    for old, new in pairs:
        if src.count(old):
            src = src.replace(old, new)
        else:
            import re
            rx = r'[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) for l in old.split('\n') if l.strip())
            m = re.search(rx, src)
            if not m:
                return name, ['NOMATCH']
            src = src[:m.start()] + new.rstrip('\n') + src[m.end():]
    out = []
    for pid, spec in registry.PROPERTIES.items():
        if spec['analyses'] and (not WANT or pid in WANT):
            ctx = runner.Ctx.__new__(runner.Ctx)
            ctx.home, ctx.repo, ctx.prop, ctx.thorough = HOME, hand.REPO, pid, False
            ctx.findings, ctx.obligations, ctx.undecided, ctx.notes = [], [], [], []
            ctx.overrides = {file: src}
            ctx.only = {file}
            ctx.cmp = Comparer(str(HOME / 'model'), str(hand.REPO), overrides={file: src}, with_c=True)
            ctx.R, ctx.C = ctx.cmp.R, ctx.cmp.C
            kf = runner.known(HOME, pid)
            for fn in spec['analyses']:
                fn(ctx)
            out += [f'{pid} {f}' for f in ctx.findings if f.key() not in kf]
    return name, out


WANT = set(sys.argv[1:])
if __name__ == '__main__':
    hand.load()
    with mp.get_context('fork').Pool(8) as p:
        for name, out in p.imap(job, hand.EDITS):
            for o in out:
                print(name, o[:300])
