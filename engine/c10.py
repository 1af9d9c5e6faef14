"""C10: which functions may change the objects they are given.

For every function of the package the alias analysis of effects.py computes the parameters, attributes and module
variables whose objects may be changed in place, through any view, container or package callee.  The table below is
the list of documented in-place updates; anything else is a violation."""
import ast
from .effects import Effects, fname
from .commute import having

# function -> parameters it is documented (or its whole purpose is) to update
PARAMS = {
    'edpyt.build_mb_ham.add_onsites': {'vec_diag'},
    'edpyt.cotnl.screen_transition_elements': {'sigmadict'},
    'edpyt.cotunneling.project_sector': {'sigmadict'},
    'edpyt.sqtunneling.project_sector': {'gfdict'},
    'edpyt.dedlib.build_moam': {'H', 'V'}, 'edpyt.dedlib.build_siam': {'H', 'V'}, 'edpyt.dedlib.cumsum': {'a'},
    'edpyt.dedlib.moam_solve': {'sigma'}, 'edpyt.dedlib.siam_solve': {'sigma'},
    'edpyt.dedlib_dev.build_moam': {'H', 'V'}, 'edpyt.dedlib_dev.build_siam': {'H', 'V'}, 'edpyt.dedlib_dev.cumsum': {'a'},
    'edpyt.dedlib_dev.ded_solve': {'sigma'}, 'edpyt.dedlib_dev.ded_solve_multi': {'sigma'},
    'edpyt.dmft.DMFT.__call__': {'delta', 'self'}, 'edpyt.dmft.SpinGfimp.solve': {'self'},
    'edpyt.dmft.dmft_step': {'gfimp', 'gfloc'}, 'edpyt.dmft.dmft_step_adjust': {'gfimp', 'gfloc'},
    'edpyt.dmft.dmft_step_magnetic': {'gfimp', 'gfloc'},
    'edpyt.eigh_arpack.eigsh': {'arpack_param', 'n', 'v0'},
    'edpyt.espace.adjust_neigsector': {'neig'}, 'edpyt.espace.screen_espace': {'espace'},
    'edpyt.fit_cffi.fit_hybrid': {'x'}, 'edpyt.fit_cg._ddelta': {'out'}, 'edpyt.fit_cg._delta': {'out'},
    'edpyt.fit_cg.fit_hybrid': {'p'}, 'edpyt.fit_cg.get_initial_bath': {'p'},
    'edpyt.gf_lanczos.build_gf_coeff_cf': {'a', 'b'},
    'edpyt.ham_hopping.add_hoppings': {'sp_mat'},
    'edpyt.ham_local.Local.matvec': {'out'}, 'edpyt.ham_local._N_build_ham_local': {'vec_diag'},
    'edpyt.ham_local._build_ham_local': {'vec_diag'},
    'edpyt.ham_non_local.NonLocal.todense': {'out'}, 'edpyt.ham_non_local.NonLocal.matvec': {'out'},
    'edpyt.ham_hopping.UpHopping.matvec': {'out'}, 'edpyt.ham_hopping.DwHopping.matvec': {'out'},
    'edpyt.ham_non_local._build_ham_non_local': {'vec_diag'}, 'edpyt.ham_non_local.build_ham_non_local': {'vec_diag'},
    'edpyt.integrate_gf.matsum_gf': {'gf'},      # set and restored, see below
    'edpyt.lanczos._sl_step': {'v'}, 'edpyt.lanczos._sl_step_mpi': {'v'}, 'edpyt.lanczos._kron': {'r'}, 'edpyt.lanczos.build_bd_tridiag': {'phi0'},
    'edpyt.nano_dmft.Gfimp.update': {'self'}, 'edpyt.nano_dmft.Gfloc.Delta': {'z'}, 'edpyt.nano_dmft.Gfloc.__call__': {'z'},
    'edpyt.nano_dmft.Gfloc.Weiss': {'z'},
    'edpyt.psparse.Multiply': {'result'}, 'edpyt.psparse.UPmultiply': {'result'}, 'edpyt.psparse.DWmultiply': {'result'},
    'c:cs_gaxpy.c.csr_gaxpy': {'y'}, 'c:cs_gaxpy.c.csr_saxpy': {'y'},
    'c:bath.c.eval_dchi2': {'dx'}, 'c:bath.c.init_bath': {'x'}, 'c:dbrent.c.dbrent': {'xmin'},
    'c:dlinmin.c.dlinmin': {'p', 'xi', 'fret'}, 'c:fit.c.fit': {'x', 'iter', 'fret'},
    'c:frprmn.c.frprmn': {'p', 'iter', 'fret'}, 'c:mnbrak.c.mnbrak': {'ax', 'bx', 'cx', 'fa', 'fb', 'fc'}, 'edpyt.sector.permutations': {'states'},
    'edpyt.vector_transpose.collect_up': {'a'}, 'edpyt.vector_transpose.collect_dw': {'a'},
}
# class -> attributes whose objects its methods own and update
ATTRS = {
    'edpyt.dedlib.Gfimp': {'ek', 'vk2'}, 'edpyt.dedlib_dev.Gfimp': {'ek', 'vk2'},
    'edpyt.dedlib.RandomSampler': {'poles'}, 'edpyt.dedlib_dev.RandomSampler': {'poles'},
    'edpyt.dmft.DMFT': {'gfimp', 'gfloc'}, 'edpyt.dmft.Delta': {'x'}, 'edpyt.dmft.Gfimp': {'V', 'H', 'neig'},
    'edpyt.dmft.SpinGfimp': {'gfimp', 'neig', 'dw', 'up', 'H'}, 'edpyt.eigh_arpack.ArpackParams': {'resid'},
    'edpyt.gf_lanczos.Gf': {'funcs'}, 'edpyt.gf_exact.Gf': {'funcs'}, 'edpyt.nano_dmft.Gfloc': {'ed'},
    'edpyt.nano_dmft.Gfimp': {'gfimp'},
}
RESTORED = {'edpyt.integrate_gf.matsum_gf': [('gf', 'mu')]}


def run(ctx):
    eff = Effects(ctx.C.prog)
    for q in sorted(ctx.R.funcs):
        f = ctx.C.funcs.get(q)
        if f is None or isinstance(f.node, ast.Lambda):
            continue
        try:
            e = eff.of(f)
        except RecursionError:
            ctx.undecided_(f'effects {q}', 'recursion')
            continue
        a = ctx.R.funcs[q].node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        ok = PARAMS.get(q, set())
        bad = False
        where = f'{f.module.path}:{f.node.lineno}'
        for k, sites in sorted(e['writes'].items()):
            nm = '*' if k < 0 else names[k] if k < len(names) else f'#{k}'
            sites = [s for s in sites if evidence(f, k, s)]
            sites = [s for s in sites if not (nm == 'self' and own_method(ctx.C.prog, s[2]))]
            if nm in ok or not sites:
                continue
            bad = True
            s = sites[0]
            ctx.violated('argument changed in place', f'{q} parameter {nm}', f'{s[0]}:{s[1]}', s[2])
        cls = q.rsplit('.', 1)[0]
        for a, sites in sorted(e['self'].items()):
            if a in ATTRS.get(cls, ()):
                continue
            bad = True
            ctx.violated('attribute changed in place', f'{q} self.{a}', f'{sites[0][0]}:{sites[0][1]}', sites[0][2])
        for g, sites in sorted(e['globals'].items()):
            bad = True
            ctx.violated('module variable changed in place', f'{q} {g}', f'{sites[0][0]}:{sites[0][1]}', sites[0][2])
        for p, a in RESTORED.get(q, ()):
            st = restored(f.node, p, a)
            if st is False:
                bad = True
                ctx.violated('not restored when an error is raised', f'{q} {p}.{a}', where,
                             f'{p}.{a} is assigned, a call that may raise follows, and no finally block or context manager restores it')
            elif st is None:
                ctx.undecided_(f'restore {q}', f'{p}.{a} is restored in a way the rule does not recognise')
        if not bad:
            ctx.holds(f'effects {q}', 'updates ' + (', '.join(sorted(ok)) or 'nothing of the caller'))


def own_method(prog, how):
    """`x.update()` where classes of the package define update: a message to an object, not dict.update"""
    name = how.rsplit('.', 1)[-1].rstrip('()') if how.endswith('()') else ''
    return bool(name) and bool(having(prog, name))


def evidence(f, k, site):
    """`n += 1` on a bare parameter is an in-place update only if the parameter is used as an array"""
    how = site[2]
    if '[' in how or '.' in how or '=' not in how or '(' in how:
        return True
    name = how.split()[0]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Call) and fname(n.func) in ('len', 'zip', 'enumerate', 'norm', 'dot', 'vdot', 'sum') and any(
                isinstance(a, ast.Name) and a.id == name for a in n.args):
            return True
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == name:
            return True
    return False


def restored(fn, p, a):
    """the attribute a of parameter p is put back on every path: True / False / None unknown"""
    def is_store(s):
        return isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name)
                                                 and t.value.id == p for t in s.targets)
    stores = [s for s in ast.walk(fn) if is_store(s)]
    if not stores:
        # not assigned at all, or set through a helper
        return None if any(isinstance(n, (ast.With,)) or isinstance(n, ast.Call) and fname(n.func) == 'setattr'
                           for n in ast.walk(fn)) else True
    final = [s for t in ast.walk(fn) if isinstance(t, ast.Try) for b in t.finalbody for s in ast.walk(b) if is_store(s)]
    if final:
        tries = [t for t in ast.walk(fn) if isinstance(t, ast.Try) and any(s in final for b in t.finalbody for s in ast.walk(b))]
        # every call made with the new value in place is inside the protected block
        first = min(s.lineno for s in stores if s not in final) if any(s not in final for s in stores) else 0
        inside = {id(n) for t in tries for n in ast.walk(t)}
        start = min(t.lineno for t in tries)
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and first < n.lineno < start and id(n) not in inside and uses(n, p):
                return False
        v = [saved(fn, p, a, s, stores) for s in final]
        return False if False in v else None if None in v else True
    if any(isinstance(n, ast.With) and any(uses(i.context_expr, p) for i in n.items) for n in ast.walk(fn)):
        return None
    ordered = sorted(stores, key=lambda s: s.lineno)
    calls = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and n.lineno > ordered[0].lineno]
    return False if calls else None


def saved(fn, p, a, store, stores):
    """the statement puts back the value the attribute had on entry: True / False / None unknown"""
    v = store.value
    if not isinstance(v, ast.Name):
        return None
    args = fn.args
    params = {x.arg for x in args.posonlyargs + args.args + args.kwonlyargs}
    binds = [(n, n.value) for n in ast.walk(fn) if isinstance(n, ast.Assign)
             and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
    others = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store)]
    if not others:
        return False if v.id in params else None
    if len(others) > len(binds):
        return None
    first = min(s.lineno for s in stores)
    ok = [isinstance(e, ast.Attribute) and e.attr == a and isinstance(e.value, ast.Name) and e.value.id == p
          and n.lineno < first for n, e in binds if n.lineno <= store.lineno]
    if all(ok) and ok:
        return True
    return None if any(isinstance(e, ast.Call) for n, e in binds) else False


def uses(n, p):
    return any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n))
