L = 'edpyt/ham_local.py'
edit('loc_onsite_helper', L, ("""    eupdiag = np.empty(n,np.float64)
    edwdiag = np.empty(n,np.float64)
    Vi = np.empty(n,np.float64)
    Vij = V.copy()
    for i in range(n):
        eupdiag[i] = H[0,i,i] + mu
        edwdiag[i] = H[1,i,i] + mu
        Vi[i] = V[i,i]
        Vij[i,i] -= V[i,i]

    for idw in prange""", """    eupdiag, edwdiag, Vi, Vij = _split(H, V, n, mu)

    for idw in prange"""), ("""@njit((Array(float64, 3, 'A', readonly=True),
       Array(float64, 2, 'C'),
       Array(uint32, 1, 'C'),
       Array(uint32, 1, 'C'),""", """@njit
def _split(H, V, n, mu):
    e_up = np.empty(n, np.float64)
    e_dw = np.empty(n, np.float64)
    U = np.empty(n, np.float64)
    W = V.copy()
    for k in range(n):
        e_up[k] = H[0,k,k] + mu
        e_dw[k] = H[1,k,k] + mu
        U[k] = V[k,k]
        W[k,k] -= V[k,k]
    return e_up, e_dw, U, W


@njit((Array(float64, 3, 'A', readonly=True),
       Array(float64, 2, 'C'),
       Array(uint32, 1, 'C'),
       Array(uint32, 1, 'C'),"""))
edit('loc_coulomb_helper', L, ("""            if hfmode:
                for i in range(n):
                    res += (nup[i]-0.5)*(ndw[i]-0.5)*Vi[i]
                    tmp = 0.
                    for j in range(n):
                        tmp += Vij[i,j]*(nup[j]+ndw[j]-z[j])
                    res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
            else:
                for i in range(n):
                    res += nup[i]*ndw[i]*Vi[i]
                    tmp = 0.
                    for j in range(n):
                        tmp += Vij[i,j]*(nup[j]+ndw[j]-z[j])
                    res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
            vec_diag[iup+idw*dup] = res
""", """            res += _coulomb(nup, ndw, Vi, Vij, z, n, hfmode)
            vec_diag[iup+idw*dup] = res
"""), ("""@njit((Array(float64, 3, 'A', readonly=True),
       Array(float64, 2, 'C'),
       Array(uint32, 1, 'C'),
       Array(uint32, 1, 'C'),""", """@njit
def _coulomb(nup, ndw, Vi, Vij, z, n, hfmode):
    shift = 0.5 if hfmode else 0.
    e = 0.
    for i in range(n):
        e += (nup[i]-shift)*(ndw[i]-shift)*Vi[i]
        acc = 0.
        for j in range(n):
            acc += Vij[i,j]*(nup[j]+ndw[j]-z[j])
        e += 0.5*acc*(nup[i]+ndw[i]-z[i])
    return e


@njit((Array(float64, 3, 'A', readonly=True),
       Array(float64, 2, 'C'),
       Array(uint32, 1, 'C'),
       Array(uint32, 1, 'C'),"""))
edit('loc_hoist_hf', L, ("""        if hfmode:
            for i in range(n):
                res += (nup[i]-0.5)*(ndw[i]-0.5)*Vi[i]
                tmp = 0.
                for j in range(n):
                    tmp += Vij[i,j]*(nup[j]+ndw[j]-z[j])
                res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
        else:
            for i in range(n):
                res += nup[i]*ndw[i]*Vi[i]
                tmp = 0.
                for j in range(n):
                    tmp += Vij[i,j]*(nup[j]+ndw[j]-z[j])
                res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
""", """        for i in range(n):
            if hfmode:
                res += Vi[i]*(ndw[i]-0.5)*(nup[i]-0.5)
            else:
                res += nup[i]*Vi[i]*ndw[i]
            tmp = 0.
            dni = nup[i]+ndw[i]-z[i]
            for j in range(n):
                dnj = nup[j]+ndw[j]-z[j]
                tmp += dnj*Vij[i,j]
            res += 0.5 * dni * tmp
"""))
edit('loc_pair_sum', L, ("""                tmp = 0.
                for j in range(n):
                    tmp += Vij[i,j]*(nup[j]+ndw[j]-z[j])
                res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
        else:""", """                for j in range(n):
                    res += 0.5 * (nup[i]+ndw[i]-z[i]) * Vij[i,j]*(nup[j]+ndw[j]-z[j])
        else:"""))
edit('loc_build', L, ("""    if z is None:
        if hfmode:
            z = np.ones(H.shape[-1])
        else:
            z = np.zeros(H.shape[-1])
""", """    if z is None:
        n = H.shape[-1]
        z = np.ones(n) if hfmode else np.zeros(n)
"""), ("""    if hasattr(sct.states, 'up'):
        _build_ham_local(H, V, sct.states.up, sct.states.dw, vec_diag, z, hfmode, mu)
    else:
        _N_build_ham_local(H, V, sct.states, vec_diag, z, hfmode, mu)
    return""", """    states = sct.states
    if not hasattr(states, 'up'):
        _N_build_ham_local(H, V, states, vec_diag, z, hfmode, mu)
    else:
        up, dw = states.up, states.dw
        _build_ham_local(H, V, up, dw, vec_diag, z, hfmode, mu)
    return"""))
edit('loc_full', L, ("""        if hfmode:
            z = np.ones(H.shape[-1])
        else:
            z = np.zeros(H.shape[-1])
""", """        z = np.full(H.shape[-1], 1. if hfmode else 0.)
"""))
H = 'edpyt/ham_hopping.py'
edit('hop_spin_helper', H, ("""    # Hoppings UP
    nnz_offdiag = count_nnz_offdiag(H[0])
    T = nnz_offdiag_csrmat(H[0], nnz_offdiag)

    nnz_up_count = nnz_offdiag * int(binom(n-2, nup-1))
    sp_mat_up = empty_csrmat(nnz_up_count, (dup, dup))

    count = 0
    for iup in range(dup):
        count = add_hoppings(iup, states_up,
            # Hoppings
            T,
            # Sequential index in many-body nnz.
            count,
            # Many-Body Hamiltonian
            sp_mat_up)

    # Hoppings DW
    nnz_offdiag = count_nnz_offdiag(H[1])
    T = nnz_offdiag_csrmat(H[1], nnz_offdiag)
        
    nnz_dw_count = nnz_offdiag * int(binom(n-2, ndw-1))
    sp_mat_dw = empty_csrmat(nnz_dw_count, (dwn, dwn))

    count = 0
    for idw in range(dwn):
        count = add_hoppings(idw, states_dw,
            # Hoppings
            T,
            # Sequential index in many-body nnz.
            count,
            # Many-Body Hamiltonian
            sp_mat_dw)
    
""", """    sp_mat_up = _one_spin(H[0], states_up, n, nup)
    sp_mat_dw = _one_spin(H[1], states_dw, n, ndw)
"""), ("""def build_ham_hopping(H, sct):
""", """def _one_spin(h, states, n, p):
    nnz = count_nnz_offdiag(h)
    T = nnz_offdiag_csrmat(h, nnz)
    d = states.size
    mat = empty_csrmat(nnz * int(binom(n-2, p-1)), (d, d))
    count = 0
    for k in range(d):
        count = add_hoppings(k, states, T, count, mat)
    return mat


def build_ham_hopping(H, sct):
"""))
edit('hop_continue', H, ("""        if check_empty(s, i):
            for p in range(T.indptr[i], T.indptr[i+1]):
                # Check occupied
                j = T.indices[p]
                if check_full(s, j):
                    sgn, f = cdgc(s, i, j)
                    sp_mat.data[count] = T.data[p] * np.float64(sgn)
                    sp_mat.indices[count] = binsearch(states, f)
                    count += 1
""", """        if not check_empty(s, i):
            continue
        start, stop = T.indptr[i], T.indptr[i+1]
        for p in range(start, stop):
            j = T.indices[p]
            if not check_full(s, j):
                continue
            sgn, f = cdgc(s, i, j)
            sp_mat.indices[count] = binsearch(states, f)
            sp_mat.data[count] = np.float64(sgn) * T.data[p]
            count += 1
"""))
edit('hop_indptr_end', H, ("""        init_count = count
        for j in range(n):
            if (i != j) and (abs(A[i,j]) > 1e-7):
                sp_A.indices[count] = j
                sp_A.data[count] = A[i,j]
                count += 1
        sp_A.indptr[i+1] = sp_A.indptr[i] + (count-init_count)
""", """        for j in range(n):
            a = A[i,j]
            if i == j or abs(a) <= 1e-7:
                continue
            sp_A.indices[count] = j
            sp_A.data[count] = a
            count += 1
        sp_A.indptr[i+1] = count
"""))
edit('hop_count_sum', H, ("""    count = 0
    n = A.shape[0]
    for i in range(n):
        for j in range(n):
            if (i != j) and (abs(A[i,j]) > 1e-7):
                count += 1
    return count
""", """    n = A.shape[0]
    return sum(1 for i in range(n) for j in range(n)
               if i != j and abs(A[i,j]) > 1e-7)
"""))
O = 'edpyt/operators.py'
edit('op_parity', O, ("""    bits = 0
    for k in range(i+1, j):
        bits += (s>>k)&1
    return 1-2*(bits%2)""", """    sgn = 1
    for k in range(i+1, j):
        if (s>>k)&1:
            sgn = -sgn
    return sgn"""))
edit('op_sorted', O, ("    i, j = sorted((i, j))\n", "    if i > j:\n        i, j = j, i\n"))
edit('op_minmax', O, ("    i, j = sorted((i, j))\n", "    i, j = min(i, j), max(i, j)\n"))
edit('op_fsgn_mask', O, ("""    bits = 0
    for k in range(pos+1,n):
        bits += (s>>k)&unsigned_one
    return 1-2*(bits%2)""", """    bits = 0
    for k in range(pos+1,n):
        if (s>>k)&unsigned_one:
            bits += 1
    return -1 if bits%2 else 1"""))
edit('op_flip', O, ("    s_out = (unsigned_one<<pos)^s\n    return s_out", "    return s^(unsigned_one<<pos)"))
edit('op_empty', O, ("    return not check_full(s, pos)", "    return ((s>>pos)&unsigned_one) == 0"))
edit('op_cdgc', O, ("    f = (s^(unsigned_one<<j))^(unsigned_one<<i)\n    sgn = get_parity(s, i, j)\n    return sgn, f", "    f = flip(flip(s, j), i)\n    return get_parity(s, i, j), f"))
edit('op_sgn_first', O, ("    s_out = flip(s, pos)\n    fermionic_sgn = fsgn(s, pos, n)\n    assert s_out < s", "    fermionic_sgn = fsgn(s, pos, n)\n    s_out = flip(s, pos)\n    assert s > s_out"))
E_ = 'edpyt/espace.py'
edit('es_empty_unpack', E_, ("""    if len(p) == 1:
        states = generate_states(2*n, p[0])
        d = states.size # Hilbert dimension.
    else:
        nup, ndw = p
        states = SzStates(
            generate_states(n, nup),        
            generate_states(n, ndw))
        d = states.up.size * states.dw.size # Hilbert dimension.        
    return Sector(states, d)""", """    if len(p) == 1:
        states = generate_states(2*n, p[0])
        return Sector(states, states.size)
    nup, ndw = p
    up = generate_states(n, nup)
    dw = generate_states(n, ndw)
    return Sector(SzStates(up, dw), up.size*dw.size)"""))
edit('es_solve', E_, ("""    if k is None: k = sct.d
    if (k == sct.d) or (sct.d <= 512):
        eigvals, eigvecs = _solve_lapack(H, V, sct)
        if k<sct.d: eigvals, eigvecs = eigvals[:k], eigvecs[:,:k]
    else:
        eigvals, eigvecs = _solve_arpack(H, V, sct, k)
    return eigvals, eigvecs
""", """    d = sct.d
    if k is None:
        k = d
    if k != d and d > 512:
        return _solve_arpack(H, V, sct, k)
    eigvals, eigvecs = _solve_lapack(H, V, sct)
    if k < d:
        eigvals = eigvals[:k]
        eigvecs = eigvecs[:,:k]
    return eigvals, eigvecs
"""))
edit('es_dim_loops', E_, ("""        for nup, ndw in np.ndindex(n+1,n+1):
            neig_sector[get_sector_index(n,nup,ndw)] = get_sector_dim(n,nup,ndw)
""", """        for nup in range(n+1):
            for ndw in range(n+1):
                isct = get_sector_index(n, nup, ndw)
                neig_sector[isct] = get_sector_dim(n, nup, ndw)
"""))
edit('es_dim_min', E_, ("        neig_sector = np.where(neig_sector <= neig_max, neig_sector, neig_max)\n", "        neig_sector = np.minimum(neig_sector, neig_max)\n"))
edit('es_dim_product', E_, ("        for nup, ndw in np.ndindex(n+1,n+1):\n", "        for nup, ndw in product(range(n+1), repeat=2):\n"))
edit('es_iter', E_, ("""            states_dw = generate_states(n, ndw)
            states = SzStates(states_up, states_dw)
            d = states_up.size*states_dw.size
            yield (nup,ndw), Sector(states, d)""", """            states = SzStates(states_up, generate_states(n, ndw))
            yield (nup,ndw), Sector(states, states.up.size*states.dw.size)"""))
edit('es_build', E_, ("""    if symmetry.lower() == 'sz':
        iter_sectors = _sz_iter_sectors
        get_sector_index = lambda qns: qns[0]*(n+1) + qns[1]
    
    elif symmetry.upper() == 'N':
        iter_sectors = _N_iter_sectors
        get_sector_index = lambda qns: qns[0]
    
    else:
        raise NotImplementedError(f"Symmetry - {symmetry} - non implemented.")
    
    espace = dict()
    if neig""", """    iter_sectors, sector_index = _pick(symmetry, n)
    espace = {}
    if neig"""), ("""        neig = neig_sector[get_sector_index(qns)]
        if neig == 0:
            continue
        # Diag""", """        neig = neig_sector[sector_index(qns)]
        if not neig:
            continue
        # Diag"""), ("""def build_espace(H, V,""", """def _pick(symmetry, n):
    if symmetry.lower() == 'sz':
        return _sz_iter_sectors, lambda qns: qns[0]*(n+1) + qns[1]
    if symmetry.upper() == 'N':
        return _N_iter_sectors, lambda qns: qns[0]
    raise NotImplementedError(f"Symmetry - {symmetry} - non implemented.")


def build_espace(H, V,"""))
edit('es_build_egs', E_, ("""        sct.eigvals, sct.eigvecs = solve_sector(H, V, sct, neig)
        if sct.eigvals.size==0:""", """        w, v = solve_sector(H, V, sct, neig)
        sct.eigvals = w
        sct.eigvecs = v
        if len(w) == 0:"""), ("        egs = min(sct.eigvals.min(), egs)\n    return espace, egs\n\n\ndef build_non", """        emin = sct.eigvals.min()
        if emin < egs:
            egs = emin
    return espace, egs


def build_non"""))
edit('es_screen', E_, ("""    delete = []
    for qns, sct in espace.items():
        diff = np.exp(-beta*(sct.eigvals-egs)) > cutoff
        if diff.any():
            if (sct.eigvecs.ndim<2): 
                raise RuntimeError('sct.eigvecs.ndim < 2!')
            keep_idx = np.where(diff)[0]
            sct.eigvals = sct.eigvals[keep_idx]
            sct.eigvecs = sct.eigvecs[:,keep_idx]
            assert sct.eigvecs.ndim>1
        else:
            delete.append(qns)
    for qns in delete:
        espace.pop(qns)""", """    for qns in list(espace):
        sct = espace[qns]
        keep = np.exp(-beta*(sct.eigvals-egs)) > cutoff
        if not keep.any():
            del espace[qns]
            continue
        if (sct.eigvecs.ndim<2): 
            raise RuntimeError('sct.eigvecs.ndim < 2!')
        keep_idx = np.where(keep)[0]
        sct.eigvals = sct.eigvals[keep_idx]
        sct.eigvecs = sct.eigvecs[:,keep_idx]
        assert sct.eigvecs.ndim>1"""))
edit('es_screen2', E_, ("""            keep_idx = np.where(diff)[0]
            sct""", """            keep_idx = np.nonzero(diff)[0]
            sct"""), ("""    for qns in delete:
        espace.pop(qns)""", """    for qns in delete:
        del espace[qns]"""))
edit('es_screen_factors', E_, ("        diff = np.exp(-beta*(sct.eigvals-egs)) > cutoff\n", "        boltz = np.exp(beta*(egs-sct.eigvals))\n        diff = cutoff < boltz\n"))
edit('es_adjust', E_, ("""    def _increase(isct):
        neig[isct] = min(
            get_sector_dim(n,nup,ndw),
            neig[isct]+1
        )

    def _decrease(isct):
        neig[isct] = max(
            1,
            neig[isct]-1
        ) """, """    def _increase(isct):
        dim = get_sector_dim(n,nup,ndw)
        if neig[isct]+1 <= dim:
            neig[isct] = neig[isct]+1
        else:
            neig[isct] = dim

    def _decrease(isct):
        neig[isct] = max(neig[isct]-1, 1) """))
edit('es_adjust_flat', E_, ("        while (nup != nup_) or (ndw != ndw_):\n", "        while (nup_, ndw_) != (nup, ndw):\n"))
B = 'edpyt/observs.py'
edit('obs_occ', B, ("""        exps = np.exp(-beta*(sct.eigvals-egs))
        evecs = sct.eigvecs
        nup_nev, ndw_nev = get_evecs_occupation(evecs,sct.states.up,sct.states.dw,n,exps)
        nup += nup_nev.sum(1)
        ndw += ndw_nev.sum(1)
        Z += exps.sum()
    nup /= Z
    ndw /= Z
    return nup, ndw""", """        weights = np.exp(-beta*(sct.eigvals-egs))
        Z += weights.sum()
        up, dw = get_evecs_occupation(sct.eigvecs, sct.states.up, sct.states.dw, n, weights)
        nup += up.sum(axis=1)
        ndw += np.sum(dw, axis=1)
    return nup/Z, ndw/Z"""))
edit('obs_mpi', B, ("""    nup_local, ndw_local = _get_evecs_occupation(evecs, states_up,
        states_dw[comm.rank*dwn_local:(comm.rank+1)*dwn_local], n, coeffs)
""", """    start = comm.rank*dwn_local
    mine = slice(start, start+dwn_local)
    nup_local, ndw_local = _get_evecs_occupation(evecs, states_up, states_dw[mine], n, coeffs)
"""))
edit('obs_loops', B, ("""    for iup in range(dup):
        sup = states_up[iup]
        # contract up component
        occps = contract_up(iup)
        for k in range(n):
            nup[k,:] += n_op(sup, k)*occps
    for idw in range(dwn):
        sdw = states_dw[idw]
        # contract down component
        occps = contract_dw(idw)
        for k in range(n):
            ndw[k,:] += n_op(sdw, k)*occps
    return nup, ndw""", """    for idw, sdw in enumerate(states_dw):
        occps = contract_dw(idw)
        for k in range(n):
            ndw[k] += occps*n_op(sdw, k)
    for iup, sup in enumerate(states_up):
        occps = contract_up(iup)
        for k in range(n):
            nup[k] += occps*n_op(sup, k)
    return nup, ndw"""))
S = 'edpyt/sector.py'
edit('sec_cdg', S, ("""    # Add up electron
    if ispin==0:
        nupJ = nup+1
        ndwJ = ndw
        # Cannot have more spin than spin states
        if nupJ>n:
            raise OutOfHilbertError(f"Out of hilbert.")
    # Add down electron
    elif ispin==1:
        nupJ = nup
        ndwJ = ndw+1
        # Cannot have more spin than spin states
        if ndwJ>n:
            raise OutOfHilbertError(f"Out of hilbert.")
    else:
        raise RuntimeError(f"Invalid spin index {ispin}. Use 0 for up and 1 for down")
    return nupJ, ndwJ


def get_c""", """    if ispin not in (0, 1):
        raise RuntimeError(f"Invalid spin index {ispin}. Use 0 for up and 1 for down")
    nupJ, ndwJ = (nup+1, ndw) if ispin==0 else (nup, ndw+1)
    if (nupJ if ispin==0 else ndwJ) > n:
        raise OutOfHilbertError("Out of hilbert.")
    return nupJ, ndwJ


def get_c"""))
edit('sec_c', S, ("""    # Remove up electron
    if ispin==0:
        nupJ = nup-1
        ndwJ = ndw
        if nupJ<0:
            raise OutOfHilbertError(f"Out of hilbert.")
""", """    # Remove up electron
    if ispin==0:
        if nup<1:
            raise OutOfHilbertError(f"Out of hilbert.")
        nupJ, ndwJ = nup-1, ndw
"""))
edit('sec_gen', S, ("""    num_states = int(binom(n, p))
    states = np.zeros(num_states,dtype=unsiged_dt)
    initial = unsiged_dt((1<<p)-1)
    states[0] = initial
    permutations(states)
    return states
""", """    states = np.zeros(int(binom(n, p)), dtype=unsiged_dt)
    states[0] = unsiged_dt((1<<p)-1)
    permutations(states)
    return states
"""))
edit('sec_perm', S, ("""        u = x & -x
        v = u + x
        x = v + (unsiged_dt((v^x)/u)>>2)
        states[i] = x""", """        low = -x & x
        ripple = x + low
        states[i] = ripple + (unsiged_dt((ripple^x)/low)>>2)
        x = states[i]"""))
edit('sec_dim', S, ("    return int(binom(n, nup)*binom(n, ndw))", "    d_up, d_dw = binom(n, nup), binom(n, ndw)\n    return int(d_dw*d_up)"))
G = 'edpyt/gf_exact.py'
edit('gfx_call', G, ("        res = np.dot(np.reciprocal(z[:,None]-self.l[None,:]),self.q)\n", "        kernel = 1./(z[:,None]-self.l[None,:])\n        res = kernel @ self.q\n"))
edit('gfx_call_dot', G, ("        res = np.dot(np.reciprocal(z[:,None]-self.l[None,:]),self.q)\n", "        res = np.reciprocal(z[:,None]-self.l[None,:]).dot(self.q)\n"))
edit('gfx_proj', G, ("""    for iupI in range(sctI.states.up.size):
        supI = sctI.states.up[iupI]
        # Check for empty impurity
        if check_occupation(supI, pos):
            sgnJ, supJ = op(supI, pos, n)
            iupJ = binsearch(sctJ.states.up, supJ)
            v0 += np.float64(sgnJ)*sctJ.eigvecs[iupJ::sctJ.states.up.size,:].T.dot(
                                   sctI.eigvecs[iupI::sctI.states.up.size,:])
""", """    upI, upJ = sctI.states.up, sctJ.states.up
    for iupI, supI in enumerate(upI):
        if not check_occupation(supI, pos):
            continue
        sgnJ, supJ = op(supI, pos, n)
        iupJ = binsearch(upJ, supJ)
        left = sctJ.eigvecs[iupJ::upJ.size,:]
        right = sctI.eigvecs[iupI::upI.size,:]
        v0 += np.float64(sgnJ)*left.T.dot(right)
"""))
edit('gfx_build', G, ("""        EI = (sctI.eigvals-egs)[None,:]
        EJ = (sctJ.eigvals-egs)[:,None]
        exponents = np.exp(-beta*EJ) + np.exp(-beta*EI)
        bJ = project_exact(pos, n, cdg, sctI, sctJ)
        lambdas.extend((EJ - EI).flatten())
        qs.extend((bJ**2 * exponents).flatten())
    # Partition""", """        EJ = (sctJ.eigvals-egs)[:,None]
        EI = (sctI.eigvals-egs)[None,:]
        bJ = project_exact(pos, n, cdg, sctI, sctJ)
        weights = bJ*bJ*(np.exp(-beta*EI) + np.exp(-beta*EJ))
        poles = EJ - EI
        lambdas.extend(poles.flatten())
        qs.extend(weights.flatten())
    # Partition"""), ("""    for nupI, ndwI in espace.keys():
        sctI = espace[(nupI,ndwI)]
        try: #""", """    for (nupI, ndwI), sctI in espace.items():
        try: #"""))
edit('gfx_Z', G, ("""    Z = sum(np.exp(-beta*(sct.eigvals-egs)).sum() for
        (nup, ndw), sct in espace.items())
""", """    Z = 0.
    for sct in espace.values():
        Z += np.exp(-beta*(sct.eigvals-egs)).sum()
"""))
