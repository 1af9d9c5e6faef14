"""Which functions carry which property, and which functions stay symbolic in
the summaries of their callers (each of those has its own law)."""

# property -> functions whose summary is compared with the reference model
LAWS = {
    'C01': ['edpyt.operators.*'],
    'C02': ['edpyt.sector.*', 'edpyt.espace.build_empty_sector', 'edpyt.espace._sz_iter_sectors',
            'edpyt.espace._N_iter_sectors', 'edpyt.espace.get_espace_dim'],
    'C03': ['edpyt.lookup.*', 'edpyt.espace.build_espace', 'edpyt.espace.screen_espace',
            'edpyt.espace.adjust_neigsector', 'edpyt.espace.get_espace_dim', 'edpyt.cotunneling.get_active_neig',
            'edpyt.sqtunneling.get_active_neig'],
    'C04': ['edpyt.ham_local._build_ham_local', 'edpyt.ham_non_local._build_ham_non_local',
            'edpyt.ham_hopping.UpHopping.*', 'edpyt.ham_hopping.DwHopping.*', 'edpyt.psparse.*', 'c:cs_gaxpy.c.*',
            'edpyt.gf_exact.project_exact_up', 'edpyt.gf_exact.project_exact_dw',
            'edpyt.gf_lanczos.project_up', 'edpyt.gf_lanczos.project_dw',
            'edpyt.gf2_exact.build_gf2_exact', 'edpyt.gf2_lanczos.*',
            'edpyt.observs._get_evecs_occupation', 'edpyt.observs._get_evecs_occupation_mpi',
            'edpyt.observs.get_evecs_occupation', 'edpyt.build_mb_ham.add_onsites',
            'edpyt.build_mb_ham.sum_diags_contrib', 'edpyt.dedlib.get_occupation',
            'edpyt.dedlib_dev.get_evecs_occupation', 'edpyt.dedlib_dev.get_occupation',
            'edpyt.lookup.get_spin_indices', 'edpyt.lookup.get_state_index', 'edpyt.vector_transpose.*',
            'edpyt.cotnl.project', 'edpyt.cotunneling.project_add', 'edpyt.cotunneling.project_sub',
            'edpyt.cotunneling.projector', 'edpyt.sqtunneling.project_add', 'edpyt.sqtunneling.project_sub'],
    'C05': ['edpyt.ham_hopping.*', 'edpyt.operators.cdgc', 'edpyt.operators.get_parity', 'edpyt.operators.check_full',
            'edpyt.operators.check_empty', 'edpyt.build_mb_ham.build_mb_ham'],
    'C06': ['edpyt.ham_local.*', 'edpyt.build_mb_ham.add_onsites', 'edpyt.build_mb_ham.sum_diags_contrib',
            'edpyt.build_mb_ham.build_mb_ham', 'edpyt.espace.build_non_interacting_espace'],
    'C07': ['edpyt.ham_non_local.*', 'edpyt.build_mb_ham.build_mb_ham'],
    'C08': ['edpyt.matvec_product.*', 'edpyt.psparse.*', 'c:cs_gaxpy.c.*', 'edpyt.ham_hopping.UpHopping.*',
            'edpyt.ham_hopping.DwHopping.*', 'edpyt.ham_local.Local.*', 'edpyt.ham_non_local.NonLocal.*',
            'edpyt.build_mb_ham.build_mb_ham', 'edpyt.lanczos._kron'],
    'C11': ['edpyt.espace.*'],
    'C12': ['edpyt.espace.solve_sector', 'edpyt.espace._solve_lapack', 'edpyt.espace._solve_arpack',
            'edpyt.eigh_arpack.*', 'edpyt.tridiag.*'],
    'C13': ['edpyt.gf_exact.*', 'edpyt.gf2_exact.*', 'edpyt.gf_lanczos.*', 'edpyt.gf2_lanczos.*'],
    'C14': ['edpyt.lanczos.*'],
    'C15': ['edpyt.continued_fraction.*', 'edpyt.gf_lanczos.*', 'edpyt.gf2_lanczos.*', 'edpyt.gf_exact.Gf.*',
            'edpyt.gf2_exact.Gf2.*'],
    'C16': ['edpyt.observs.*', 'edpyt.dedlib.get_occupation', 'edpyt.dedlib_dev.get_evecs_occupation',
            'edpyt.dedlib_dev.get_occupation', 'edpyt.dedlib_dev.get_occupation_full'],
    'C17': [],
    'C18': ['edpyt.vector_transpose.*', 'edpyt.matvec_product._matvec_operator_mpi',
            'edpyt.observs._get_evecs_occupation_mpi', 'edpyt.nano_dmft._get_idx_world',
            'edpyt.nano_dmft.Gfloc.__init__', 'edpyt.nano_dmft.Gfloc.set_local', 'edpyt.nano_dmft.Gfloc.integrate',
            'edpyt.lanczos._sl_step_mpi', 'edpyt.ded.*'],
    'C19': ['edpyt.cotnl.build_rate_and_transition_matrices', 'edpyt.cotnl.dict_to_matrix',
            'edpyt.sqtnl.build_rate_and_transition_matrices', 'edpyt.cotunneling.build_rate_matrix',
            'edpyt.sqtunneling.build_rate_matrix', 'edpyt.rates.stationary_solution',
            'edpyt.cotunneling.build_transition_matrix', 'edpyt.sqtunneling.build_transition_matrix'],
    'C20': ['edpyt.sqtnl.nF', 'edpyt.sqtnl.Gf*', 'edpyt.sqtunneling._Gf.*', 'edpyt.sqtunneling.Gf*', 'edpyt.cotnl.Gf2*',
            'edpyt.cotnl.nF', 'edpyt.cotnl.G', 'edpyt.cotnl.Sigma.*', 'edpyt.cotnl.abs2', 'edpyt.cotunneling.abs2',
            'edpyt.cotunneling.Gf2.*', 'edpyt.cotunneling._Sigma*', 'edpyt.cotunneling.Sigma*', 'edpyt.integrals.*',
            'edpyt.cotnl.build_rate_and_transition_matrices', 'edpyt.sqtnl.build_rate_and_transition_matrices',
            'edpyt.cotunneling.build_rate_matrix', 'edpyt.sqtunneling.build_rate_matrix',
            'edpyt.cotunneling.build_transition_matrix', 'edpyt.sqtunneling.build_transition_matrix'],
    'C21': ['edpyt.cotnl.project', 'edpyt.cotnl.excite_*', 'edpyt.cotnl.build_transition_elements',
            'edpyt.cotnl.get_unique_ids', 'edpyt.cotnl.check_transition_elements',
            'edpyt.cotnl.screen_transition_elements', 'edpyt.sqtnl.extract_sequential_from_cotunneling',
            'edpyt.sqtnl.excite_*', 'edpyt.sqtnl.build_transition_elements', 'edpyt.cotunneling.project*',
            'edpyt.cotunneling.build_transition_elements', 'edpyt.cotunneling.screen_transition_elements',
            'edpyt.cotunneling.find_active_sectors', 'edpyt.cotunneling.get_active_neig',
            'edpyt.sqtunneling.project*', 'edpyt.sqtunneling.getdns', 'edpyt.sqtunneling.getdud',
            'edpyt.sqtunneling.build_transition_elements', 'edpyt.sqtunneling.screen_transition_elements',
            'edpyt.sqtunneling.find_active_sectors', 'edpyt.sqtunneling.get_active_neig'],
    'C22': ['edpyt.dmft.Gfimp.*', 'edpyt.dmft.SpinGfimp.*', 'edpyt.dmft.Delta.*', 'edpyt.dedlib.build_siam',
            'edpyt.dedlib.build_moam', 'edpyt.dedlib_dev.build_siam', 'edpyt.dedlib_dev.build_moam',
            'edpyt.dedlib.Gfimp.*', 'edpyt.dedlib_dev.Gfimp.*', 'edpyt.nano_dmft.Gfimp.*',
            'edpyt.dedlib.siam_solve', 'edpyt.dedlib.moam_solve', 'edpyt.dedlib_dev.ded_solve',
            'edpyt.dedlib_dev.ded_solve_multi'],
    'C23': ['edpyt.dmft.*', 'edpyt.nano_dmft.*'],
    'C24': ['edpyt.fit_cg.*', 'c:bath.c.*', 'c:fit.c.*', 'c:f1dim.c.*', 'c:df1dim.c.*', 'c:dlinmin.c.*', 'c:frprmn.c.*',
            'edpyt.fit_cffi.*', 'edpyt_backend.fit_wrap.*'],
    'C27': [],
    'C28': [],
    'C30': ['edpyt.integrate_gf.*', 'edpyt.dmft.adjust_mu', 'edpyt.dmft.Gfimp.integrate',
            'edpyt.dmft.SpinGfimp.integrate', 'edpyt.nano_dmft.Gfloc.integrate'],
}

# functions that are always read through (small, or generators of index maps)
INLINE = ['edpyt.operators.*', 'edpyt.lookup.get_spin_indices', 'edpyt.lookup.get_state_index', 'edpyt.cotnl.nF',
          'edpyt.cotnl.abs2', 'edpyt.cotunneling.abs2', 'edpyt.sqtnl.nF', 'edpyt.sqtunneling._Gf.nF',
          'edpyt.integrals.nB', 'edpyt.dmft.ht', 'edpyt.sqtunneling.getdns', 'edpyt.sqtunneling.getdud',
          'edpyt.espace.build_empty_sector', 'edpyt.matvec_product.matvec_operator',
          'edpyt.lanczos.sl_step', 'edpyt.lookup.get_sector_index',
          'c:cs_gaxpy.c.*', 'c:bath.c.*', 'c:util.c.*', 'c:f1dim.c.*', 'c:df1dim.c.*']


# started first: they take longest
SLOW = {'edpyt.ham_non_local._N_build_ham_non_local', 'edpyt.ham_non_local._build_ham_non_local',
        'edpyt.dedlib.moam_solve', 'edpyt.dedlib.siam_solve', 'edpyt.dedlib_dev.ded_solve_multi',
        'edpyt.dedlib_dev.ded_solve'}


def match(pat, q):
    if pat.endswith('*'):
        return q.startswith(pat[:-1])
    return pat == q


def opaque_set(prog, everything=False):
    """qual -> canonical name for the module level functions of a program"""
    out = {}
    for m in prog.modules.values():
        for n, e in m.names.items():
            if e[0] == 'func':
                q = e[1].qual
                if everything or not any(match(p, q) for p in INLINE):
                    out[q] = q
    return out


def functions(prog):
    """qual -> Func of everything that can be summarised"""
    import ast
    from .program import Func
    out = {}
    for m in prog.modules.values():
        for n, e in m.names.items():
            if e[0] == 'func':
                out[e[1].qual] = e[1]
            elif e[0] == 'class':
                for f in e[1].methods.values():
                    out[f.qual] = f
            elif e[0] == 'assign' and isinstance(e[1], ast.Lambda):
                out[f'{m.name}.{n}'] = Func(m, e[1], name=n)
    return out
