"""Refreshes the reference model /verif/model from a reviewed tree (run by hand,
never by a check).  The model is the reviewed meaning of every function; the
checks compare what /repo's current functions mean with it."""
import ast, pathlib, shutil, sys

src = pathlib.Path(sys.argv[1] if len(sys.argv) > 1 else '/repo')
dst = pathlib.Path(__file__).resolve().parent.parent / 'model'


def strip(t):
    for n in ast.walk(t):
        b = getattr(n, 'body', None)
        if isinstance(b, list) and b and isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                b.pop(0)
            if not b and not isinstance(n, ast.Module):
                b.append(ast.Pass())
    return t


for pk in ('edpyt', 'edpyt_backend'):
    (dst / pk).mkdir(parents=True, exist_ok=True)
    for p in sorted((src / pk).iterdir()):
        if p.name.startswith(('test', '_fit')) or p.name.endswith('_test.c'):
            continue
        if p.suffix == '.py':
            (dst / pk / p.name).write_text(ast.unparse(strip(ast.parse(p.read_text()))) + '\n')
        elif p.suffix in ('.pyx', '.c', '.h'):
            if p.suffix == '.c' and 'Cython' in p.read_text()[:200]:
                continue
            shutil.copy(p, dst / pk / p.name)
