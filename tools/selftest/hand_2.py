G = 'edpyt/gf_lanczos.py'
edit('gl_cf', G, ("""    sz = a.size
    def inner(e, eta, n=sz):
        z = np.atleast_1d(e + 1.j*eta)
        return _cfpyx(z, a, b)
""", """    def inner(e, eta, n=a.size):
        return _cfpyx(np.atleast_1d(e + 1.j*eta), a, b)
"""))
edit('gl_spectral', G, ("        return np.dot(np.reciprocal(z[:,None]-l[None,:]),q)\n", "        kern = np.reciprocal(z[:,np.newaxis] - l[np.newaxis,:])\n        return kern.dot(q)\n"))
edit('gl_spectral2', G, ("        return np.dot(np.reciprocal(z[:,None]-l[None,:]),q)\n", "        return (1./(z[:,None]-l)) @ q\n"))
edit('gl_gfcall', G, ("        out = np.sum([f(e, eta) for f in self.funcs], axis=0)\n        return out / self.Z\n", "        terms = []\n        for func in self.funcs:\n            terms.append(func(e, eta))\n        return np.sum(terms, axis=0) / self.Z\n"))
edit('gl_gfcall2', G, ("        out = np.sum([f(e, eta) for f in self.funcs], axis=0)\n        return out / self.Z\n", "        out = 0.\n        for f in self.funcs:\n            out = out + f(e, eta)\n        return out / self.Z\n"))
edit('gl_proj_up', G, ("""    for iupI in range(sctI.states.up.size):
        supI = sctI.states.up[iupI]
        # Check for empty impurity
        if check_occupation(supI, pos):
            sgnJ, supJ = op(supI, pos, n)
            iupJ = binsearch(sctJ.states.up, supJ)
            v0[:,iupJ::sctJ.states.up.size] = np.float64(sgnJ)*sctI.eigvecs[iupI::sctI.states.up.size,:].T
    return v0
""", """    upI, upJ = sctI.states.up, sctJ.states.up
    dupI, dupJ = upI.size, upJ.size
    for iupI, supI in enumerate(upI):
        if not check_occupation(supI, pos):
            continue
        sgnJ, supJ = op(supI, pos, n)
        iupJ = binsearch(upJ, supJ)
        v0[:,iupJ::dupJ] = np.float64(sgnJ)*sctI.eigvecs[iupI::dupI].T
    return v0
"""))
edit('gl_proj_dw', G, ("""            sgnJ, sdwJ = op(sdwI, pos, n)
            idwJ = binsearch(sctJ.states.dw, sdwJ)
            v0[:,idwJ*sctJ.states.up.size:(idwJ+1)*sctJ.states.up.size] = np.float64(sgnJ)*sctI.eigvecs[idwI*sctI.states.up.size:(idwI+1)*sctI.states.up.size,:].T
""", """            sgnJ, sdwJ = op(sdwI, pos, n)
            dupI = sctI.states.up.size
            dupJ = sctJ.states.up.size
            startJ = binsearch(sctJ.states.dw, sdwJ)*dupJ
            startI = idwI*dupI
            block = sctI.eigvecs[startI:startI+dupI,:]
            v0[:,startJ:startJ+dupJ] = np.float64(sgnJ)*block.T
"""))
edit('gl_coeff_sp', G, ("""    q = (Un[0] * b[0])**2 * exponent
    En -= Ei
    if sign<0:
        En *= -1.
    return En, q
""", """    amp = b[0] * Un[0]
    q = exponent * amp**2
    poles = En - Ei
    if sign<0:
        poles = -poles
    return poles, q
"""))
edit('gl_coeff_cf', G, ("""    b **= 2
    b[0] *= exponent
    a -= Ei
    if sign<0:
        a *= -1.
    return a, b
""", """    a = a - Ei
    if sign<0:
        a = -a
    b = b**2
    b[0] *= exponent
    return a, b
"""))
edit('gl_pick', G, ("""    irepr =_reprs.index(repr)
    gf_kernel = [continued_fraction, spectral][irepr]
    build_gf_coeff = [build_gf_coeff_cf, build_gf_coeff_sp][irepr]
""", """    kernels = (continued_fraction, spectral)
    builders = (build_gf_coeff_cf, build_gf_coeff_sp)
    irepr = _reprs.index(repr)
    gf_kernel, build_gf_coeff = kernels[irepr], builders[irepr]
"""))
edit('gl_gfh', G, ("""    gfe = Gf()
    if separate:
        gfh = Gf()
    else:
        gfh = gfe
""", """    gfe = Gf()
    gfh = Gf() if separate else gfe
"""))
edit('gl_items', G, ("""    for nupI, ndwI in espace.keys():
        sctI = espace[(nupI,ndwI)]
""", """    for (nupI, ndwI), sctI in espace.items():
"""))
edit('gl_exp', G, ("        exponents = np.exp(-beta*(sctI.eigvals-egs))\n", "        exponents = np.exp(beta*(egs-sctI.eigvals))\n"))
edit('gl_small', G, ("                l = sctJ.eigvals[:,None] - sctI.eigvals[None,:]\n                q = bJ**2 * exponents[None,:]\n                gfe.add(\n                    spectral,\n                    l.reshape(-1,), q.reshape(-1,)\n                )\n", "                poles = sctJ.eigvals[:,None] - sctI.eigvals[None,:]\n                residues = exponents[None,:] * bJ**2\n                gfe.add(spectral, poles.reshape(-1,), residues.reshape(-1,))\n"))
edit('gl_outofh', G, ("""        try: # Add spin (N+1 sector)
            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
        except OutOfHilbertError: # More spin than spin states
            pass
        else:
            # Arrival sector
            sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
""", """        try: # Add spin (N+1 sector)
            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
        except OutOfHilbertError: # More spin than spin states
            pass
        else:
            # Arrival sector
            if (nupJ, ndwJ) in espace:
                sctJ = espace[(nupJ, ndwJ)]
            else:
                sctJ = build_empty_sector(n, nupJ, ndwJ)
"""))
G2 = 'edpyt/gf2_lanczos.py'
edit('g2_eval', G2, ("""                G[ipos,jpos] = 0.5*(gf[ipos,jpos](e,eta)-G[ipos,ipos]-G[jpos,jpos])
                G[jpos,ipos] = G[ipos,jpos]
""", """                val = (gf[ipos,jpos](e,eta)-G[ipos,ipos]-G[jpos,jpos])/2
                G[ipos,jpos] = val
                G[jpos,ipos] = val
"""))
edit('g2_eval2', G2, ("""        for ipos in range(n):
            for jpos in range(ipos+1,n):
                G[ipos,jpos] = 0.5*(gf[ipos,jpos](e,eta)-G[ipos,ipos]-G[jpos,jpos])
                G[jpos,ipos] = G[ipos,jpos]
""", """        for jpos in range(n):
            for ipos in range(jpos):
                G[ipos,jpos] = G[jpos,ipos] = 0.5*(gf[ipos,jpos](e,eta)-G[ipos,ipos]-G[jpos,jpos])
"""))
edit('g2_getitem', G2, ("""        if i==j:
            return self.gf[i,j]
        return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
                                   -self.gf[i,i](e,eta)
                                   -self.gf[j,j](e,eta))
""", """        if i!=j:
            def offdiag(e, eta):
                both = self.gf[i,j](e,eta)
                return 0.5*(both - self.gf[i,i](e,eta) - self.gf[j,j](e,eta))
            return offdiag
        return self.gf[i,j]
"""))
edit('g2_Z', G2, ("""    Z = sum(np.exp(-beta*(sct.eigvals-egs)).sum() for
        (nup, ndw), sct in espace.items())
    gfe.Z = Z
    gfh.Z = Z
""", """    Z = 0.
    for sct in espace.values():
        Z += np.exp(-beta*(sct.eigvals-egs)).sum()
    gfe.Z = gfh.Z = Z
"""))
edit('g2_v0', G2, ("            v0 = project(ipos, n, cdg, sctI, sctJ) + project(jpos, n, cdg, sctI, sctJ)\n", "            v0 = project(ipos, n, cdg, sctI, sctJ)\n            v0 = v0 + project(jpos, n, cdg, sctI, sctJ)\n"))
edit('g2_build', G2, ("""    for ipos in range(n):
        gf = build_gf_lanczos(
            H, V, espace, beta, egs, ipos, repr, ispin, separate)
        add(ipos,ipos,gf)
    for ipos in range(n):
        for jpos in range(ipos+1,n):
            gf = build_gf_offdiag(
                H, V, espace, beta, ipos, jpos, ispin, egs, repr, separate)
            add(ipos,jpos,gf)
""", """    for ipos in range(n):
        add(ipos, ipos, build_gf_lanczos(H, V, espace, beta, egs=egs, pos=ipos, repr=repr, ispin=ispin, separate=separate))
        for jpos in range(ipos+1,n):
            add(ipos, jpos, build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=ispin, egs=egs, repr=repr, separate=separate))
"""))
L = 'edpyt/lanczos.py'
edit('la_step', L, ("""    b = np.linalg.norm(v)
    scal(1/b,v)
    w = matvec(v)
    a = v.dot(w)
""", """    norm = np.linalg.norm(v)
    b = norm
    scal(1./norm,v)
    w = matvec(v)
    a = np.dot(v, w)
"""))
edit('la_tridiag_test', L, ("""            if (abs(b[n])<delta) or (n>=(maxn-1)):
                if n==0:
                    raise ZeroNormInitialVector("Initial vector has zero norm.")
                converged = True
                break
""", """            small = abs(b[n]) < delta
            full = n >= maxn-1
            if small or full:
                if n==0:
                    raise ZeroNormInitialVector("Initial vector has zero norm.")
                converged = True
                break
"""))
edit('la_tridiag_egs', L, ("""        if abs(egs - egs_prev)<tol:
            converged = True
        else:
            egs_prev = egs

    return a[:n], b[:n]
""", """        converged = abs(egs_prev - egs) < tol
        egs_prev = egs

    return a[:n], b[:n]
"""))
edit('la_kron', L, ("""    for i in range(u_row.size):
        coeff = u_row[i]
        for k in prange(l.size):
            r[i,k] += coeff * l[k]
""", """    for k in prange(l.size):
        lk = l[k]
        for i in range(u_row.size):
            r[i,k] += u_row[i] * lk
"""))
edit('la_solve', L, ("""    v = v0
    l = np.zeros_like(v)
    r = np.zeros((U.shape[1],v0.size),v0.dtype)
    for n in range(a.size):
        _, _, l, v = lanc_step(v, l)
        _kron(U[n],l,r)
    return w, r.T # use convention v[:,0] is a vector (here, in 'F' order)
""", """    r = np.zeros((U.shape[1],v0.size),v0.dtype)
    l = np.zeros_like(v0)
    v = v0
    for u_row in U[:a.size]:
        step = lanc_step(v, l)
        l, v = step[2], step[3]
        _kron(u_row,l,r)
    return w, r.T
"""))
T_ = 'edpyt/tridiag.py'
edit('tr_partial', T_, ("""    il = select_range[0] + 1
    iu = select_range[1] + 1
    order = 'E' if eigvals_only else 'B'
    m, w, iblock, isplit, info = stebz(a,b,2,0.,1.,il,iu,0.,order)
""", """    first, last = select_range
    if eigvals_only:
        order = 'E'
    else:
        order = 'B'
    m, w, iblock, isplit, info = stebz(a,b,2,0.,1.,first+1,last+1,0.,order)
"""))
edit('tr_full', T_, ("""    b_ = np.empty(b.size+1, a.dtype)
    b_[:-1] = b
    compute_v = not eigvals_only
    lwork, liwork, info = stemr_lwork(a,b_,0,0.,1.,1,1,compute_v=compute_v)
    _check_info('stemr_lwork', info)
""", """    compute_v = not eigvals_only
    work = np.empty(b.size+1, a.dtype)
    work[:b.size] = b
    b_ = work
    lwork, liwork, info = stemr_lwork(a,b_,0,0.,1.,1,1,compute_v=compute_v)
    _check_info('stemr_lwork', info)
"""))
I_ = 'edpyt/integrate_gf.py'
edit('ig_loop', I_, ("""    mu_1 = complex(0)
    for i in range(N):
        mu_1 += gf(a_p[i]) * Rp[i]
    mu_1 *= -1j*4/beta

    rho = np.real(mu_0) + np.imag(mu_1)

    return rho/2.
""", """    total = complex(0)
    for pole, residue in zip(a_p, Rp):
        total += residue * gf(pole)
    mu_1 = -4j/beta * total

    return 0.5*(np.real(mu_0) + np.imag(mu_1))
"""))
edit('ig_sum', I_, ("""    mu_1 = complex(0)
    for i in range(N):
        mu_1 += gf(a_p[i]) * Rp[i]
    mu_1 *= -1j*4/beta
""", """    mu_1 = sum(gf(a_p[i]) * Rp[i] for i in range(nzp))
    mu_1 = mu_1 * (-1j*4/beta)
"""))
edit('ig_fermi', I_, ("""    for i in range(M):
        for j in range(M):
            a[j*M+i] = A[i+1,j+1]
            b[j*M+i] = B[i+1,j+1]

    a.shape = (M,M)
    b.shape = (M,M)
""", """    for j in range(M):
        for i in range(M):
            k = i + j*M
            a[k] = A[i+1,j+1]
            b[k] = B[i+1,j+1]

    a = a.reshape(M,M)
    b = b.reshape(M,M)
"""))
edit('ig_fermi2', I_, ("""    for i in range(M,0,-1):
        zp[i] = zp[i-1]

    for i in range(1,M+1):
        zp[i] = 1.0/zp[i]
""", """    for i in range(M,0,-1):
        zp[i] = 1.0/zp[i-1]
"""))
edit('ig_fermi3', I_, ("""        Rp[i+1] = -a[i*M]*a[i*M]*zp[i+1]*zp[i+1]*0.250
""", """        amp = a[i*M]*zp[i+1]
        Rp[i+1] = -0.25*amp**2
"""))
edit('ig_scalar', I_, ("""    if np.isscalar(mu):
        a_p = mu + 1j*zp/beta
    else:
        mu = np.broadcast_to(mu, (nzp,)+mu.shape)
        zp = np.resize(zp, mu.shape)
        a_p = mu + 1j*zp/beta
""", """    if not np.isscalar(mu):
        mu = np.broadcast_to(mu, (nzp,)+mu.shape)
        zp = np.resize(zp, mu.shape)
    a_p = mu + 1j*zp/beta
"""))
edit('ig_matsum', I_, ("""    s = np.zeros_like(mu2)
    for i in range(z.size):
        tail = - (mu + z[i]) / (mu2+w2[i])
        s += (gf_z[...,i]-tail).real
""", """    s = np.zeros_like(mu2)
    for i, zi in enumerate(z):
        denom = mu2 + w2[i]
        tail = - (mu + zi) / denom
        s += np.real(gf_z[...,i] - tail)
"""))
N_ = 'edpyt/integrals.py'
edit('in_I1', N_, ("""    return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
            Psi(1,mu[1],eps,beta)
          - Psi(1,mu[0],eps,beta)
        )
""", """    psi1 = Psi(1,mu[1],eps,beta)
    psi0 = Psi(1,mu[0],eps,beta)
    pref = beta*C**2/(2*np.pi)
    return pref * nB(x) * np.imag(psi1 - psi0)
"""))
edit('in_I1_imag', N_, ("""    return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
            Psi(1,mu[1],eps,beta)
          - Psi(1,mu[0],eps,beta)
        )
""", """    diff = np.imag(Psi(1,mu[1],eps,beta)) - np.imag(Psi(1,mu[0],eps,beta))
    return nB(x) * diff * C**2 * beta / (2.*np.pi)
"""))
edit('in_branch', N_, ("""    if abs(x) < 1e-16:
        return 0. # -1.
    if abs(x) < 1e-15:
        return A * B / (epsA-epsB) * np.real(
""", """    ax = abs(x)
    if ax < 1e-16:
        return 0.
    elif ax < 1e-15:
        return A * B / (epsA-epsB) * np.real(
"""))
edit('in_taylor', N_, ("""    return k / x \\
           - 0.5 * k \\
           + 1/12 * x * k \\
           - 1/720 * x**3 * k
""", """    series = 1/x - 0.5 + x/12 - x**3/720
    return k * series
"""))
edit('in_gamma4', N_, ("""    return Gamma2(A,B,epsA,epsB,mu,beta) \\
         + Gamma2(A,C,epsA,epsC,mu,beta) \\
         - Gamma2(A,-D,epsA,epsD,mu,beta) \\
         - Gamma2(B,-C,epsB,epsC,mu,beta) \\
         + Gamma2(B,D,epsB,epsD,mu,beta) \\
         + Gamma2(C,D,epsC,epsD,mu,beta)""", """    plus = (Gamma2(A,B,epsA,epsB,mu,beta)
            + Gamma2(A,C,epsA,epsC,mu,beta)
            + Gamma2(B,D,epsB,epsD,mu,beta)
            + Gamma2(C,D,epsC,epsD,mu,beta))
    minus = Gamma2(A,-D,epsA,epsD,mu,beta) + Gamma2(B,-C,epsB,epsC,mu,beta)
    return plus - minus"""))
R_ = 'edpyt/rates.py'
edit('ra_stat', R_, ("""    j_stationary = np.argmin(abs(w - 1.0))
    p_stationary = v[:,j_stationary].real
    p_stationary /= p_stationary.sum()
    return p_stationary
""", """    distance = np.abs(w - 1.0)
    p = v[:,distance.argmin()].real
    return p / p.sum()
"""))
M_ = 'edpyt/matvec_product.py'
edit('mv_dispatch', M_, ("""    if comm is None:
        return _matvec_operator(*operators)
    else:
        return _matvec_operator_mpi(*operators, comm=comm)
""", """    if comm is not None:
        return _matvec_operator_mpi(*operators, comm=comm)
    return _matvec_operator(*operators)
"""))
edit('mv_out', M_, ("""        out = np.empty_like(vec) if res is None else res
        for op in operators:
            op.matvec(vec, out=out)
        return out
""", """        if res is None:
            res = np.empty_like(vec)
        for op in operators:
            op.matvec(vec, out=res)
        return res
"""))
edit('mv_mpi', M_, ("""    size = comm.Get_size()
    dup = sp_mat_up.shape[0]
    dwn = sp_mat_dw.shape[0]
    if dup!=dwn:
        raise NotImplementedError('Works only for sector with equal up and down # of spins.')
    if (dwn%comm.Get_size())!=0.:
        raise ValueError('# of MPI processes must be a divisor of hilbert up(& down) space.')
    dwn_local = dwn//size
""", """    dup, dwn = sp_mat_up.shape[0], sp_mat_dw.shape[0]
    if dup != dwn:
        raise NotImplementedError('Works only for sector with equal up and down # of spins.')
    size = comm.Get_size()
    if dwn % size:
        raise ValueError('# of MPI processes must be a divisor of hilbert up(& down) space.')
    dwn_local = dwn//size
"""))
edit('mv_todense', M_, ("""    diag_op = []
    ops = []
    for op in operators:
        if op.ndim<2:
            diag_op.append(op)
        else:
            ops.append(op)
""", """    diag_op = [op for op in operators if op.ndim < 2]
    ops = [op for op in operators if not op.ndim < 2]
"""))
K_ = 'edpyt/lookup.py'
edit('lk_bs', K_, ("""    while hi-lo > 1:
        m = (lo+hi)>>1
        if a[m] <= s:
            lo = m
        else:
            hi = m

    if lo == -1 or a[lo] != s:
        return -1
    else:
        return lo
""", """    while hi - lo > 1:
        mid = (hi+lo)//2
        if a[mid] > s:
            hi = mid
        else:
            lo = mid

    if lo >= 0 and a[lo] == s:
        return lo
    return -1
"""))
edit('lk_count', K_, ("""    bits = 0
    for i in range(n):
        bits += (s>>i)&unsiged_dt(1)
    return bits
""", """    bits = 0
    for i in range(n):
        if (s>>i)&unsiged_dt(1):
            bits += 1
    return bits
"""))
edit('lk_count2', K_, ("""    bits = 0
    for i in range(n):
        bits += (s>>i)&unsiged_dt(1)
    return bits
""", """    total = 0
    i = 0
    while i < n:
        total += (s>>i)&unsiged_dt(1)
        i += 1
    return total
"""))
edit('lk_spin', K_, ("""    iup = i%dup
    idw = i//dup
    return iup, idw
""", """    idw = i//dup
    return i - idw*dup, idw
"""))
edit('lk_intrep', K_, ("""    for shift, j in enumerate(arr_repr):
        if j:
            i += unsiged_dt(1) << shift
    return i
""", """    for shift in range(len(arr_repr)):
        if not arr_repr[shift]:
            continue
        i += unsiged_dt(1) << shift
    return i
"""))
C_ = 'edpyt/cotunneling.py'
edit('co_rate', C_, ("""    for extract, inject in np.ndindex(2, 2):
        for i, f in np.ndindex(sz, sz):
            if i != f:
                try:
                    gamma = 0.
                    for sigma in sigmadict[map[f],map[i]]:
                        gamma += integrate(sigma)(A, extract, inject, beta, mu)
                except:
                    continue
                W[i,i] -= gamma
                W[f,i] += gamma
    return W
""", """    for extract in range(2):
        for inject in range(2):
            for i in range(sz):
                for f in range(sz):
                    if i == f:
                        continue
                    try:
                        gamma = sum(integrate(sigma)(A, extract, inject, beta, mu) for sigma in sigmadict[map[f],map[i]])
                    except:
                        continue
                    W[f,i] += gamma
                    W[i,i] -= gamma
    return W
"""))
edit('co_rate2', C_, ("""    idF = sorted(set([idF for idF, _ in sigmadict.keys()]))
    map = {i:id for i,id in enumerate(idF)}
    sz = len(idF)
    W = np.zeros((sz, sz))
    for extract, inject in np.ndindex(2, 2):
        for i, f in np.ndindex(sz, sz):
            if i != f:
                try:
                    gamma = 0.
                    for sigma in sigmadict[map[f],map[i]]:
""", """    ids = sorted({idF for idF, _ in sigmadict.keys()})
    sz = len(ids)
    W = np.zeros((sz, sz))
    for extract, inject in np.ndindex(2, 2):
        for i, f in np.ndindex(sz, sz):
            if i != f:
                try:
                    gamma = 0.
                    for sigma in sigmadict[ids[f],ids[i]]:
"""))
edit('co_G', C_, ("""        if (beta*abs(z))<1e-18:
            return 1./beta
        if (beta*z)>1e3:
            return 0.
        return z/(np.exp(beta*z)-1)
""", """        x = beta*z
        if beta*abs(z) < 1e-18:
            return 1./beta
        elif x > 1e3:
            return 0.
        else:
            return z/(np.exp(x)-1)
"""))
edit('co_add', C_, ("""    v_JI = np.empty((sctJ.eigvals.size,sctI.eigvals.size,n))
    v_FJ = np.empty((sctF.eigvals.size,sctJ.eigvals.size,n))
    for j in range(n):
        v_JI[...,j] = sgnI * proj_ispin_j(j, n, cdg, sctI, sctJ)
    for i in range(n):
        v_FJ[...,i] = sgnJ * proj_ispin_i(i, n, c, sctJ, sctF)
    dE = sctF.eigvals[:,None]-sctI.eigvals[None,:]
    E = sctJ.eigvals[None,:]-sctI.eigvals[:,None]
""", """    nI, nJ, nF = sctI.eigvals.size, sctJ.eigvals.size, sctF.eigvals.size
    v_JI = np.empty((nJ,nI,n))
    v_FJ = np.empty((nF,nJ,n))
    for k in range(n):
        v_JI[...,k] = sgnI * proj_ispin_j(k, n, cdg, sctI, sctJ)
        v_FJ[...,k] = sgnJ * proj_ispin_i(k, n, c, sctJ, sctF)
    E = sctJ.eigvals[None,:]-sctI.eigvals[:,None]
    dE = sctF.eigvals[:,None]-sctI.eigvals[None,:]
"""))
edit('co_add2', C_, ("""    gf2elist = []
    for f,i in np.ndindex(v_FJ.shape[0],v_JI.shape[1]):
        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[i],dE[f,i],(nupJ,ndwJ)))
    return gf2elist
""", """    return [Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[i],dE[f,i],(nupJ,ndwJ))
            for f in range(sctF.eigvals.size) for i in range(sctI.eigvals.size)]
"""))
edit('co_projector', C_, ("    if ispin==0:\n        return project_exact_up\n    return project_exact_dw\n", "    return project_exact_up if ispin==0 else project_exact_dw\n"))
edit('co_int', C_, ("""        return Gamma2(
            A[inject].dot(self.gf2e.vF[0])*A[extract].dot(self.gf2e.vI[0]), #A
            A[extract].dot(self.gf2h.vF[0])*A[inject].dot(self.gf2h.vI[0]), #B
            self.gf2e.E[0], # epsA
            self.gf2h.E[0], # epsB
            [mu[extract]-self.dE,mu[inject]], beta)
""", """        gfe, gfh = self.gf2e, self.gf2h
        Ain, Aout = A[inject], A[extract]
        ampe = Ain.dot(gfe.vF[0])*Aout.dot(gfe.vI[0])
        amph = Aout.dot(gfh.vF[0])*Ain.dot(gfh.vI[0])
        return Gamma2(ampe, amph, gfe.E[0], gfh.E[0], [mu[extract]-self.dE,mu[inject]], beta)
"""))
edit('co_sector', C_, ("""    for ispin_i, ispin_j in ispin:
        try:
            gf2elist = project_add(ispin_i, ispin_j, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            gf2elist = (None,)
        try:
            gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            gf2hlist = (None,)
        sigmalist.extend([Sigma(gf2e,gf2h)
                          for gf2e,gf2h in zip_longest(gf2elist,gf2hlist)])
""", """    for ispin_i, ispin_j in ispin:
        try:
            gf2elist = project_add(ispin_i, ispin_j, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            gf2elist = (None,)
        try:
            gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            gf2hlist = (None,)
        for gf2e, gf2h in zip_longest(gf2elist, gf2hlist):
            sigmalist.append(Sigma(gf2e, gf2h))
"""))
edit('co_screen', C_, ("""    return {(idF, idI):sigma for (idF, idI),sigma in sigmadict.items() 
            if (abs(sigma[0].dE)<cutoff)
            and(abs(espace[idF[:2]].eigvals[idF[2]]-egs)<cutoff)
            and(abs(espace[idI[:2]].eigvals[idI[2]]-egs)<cutoff)}
""", """    kept = {}
    for (idF, idI), sigma in sigmadict.items():
        if abs(sigma[0].dE) >= cutoff:
            continue
        if abs(espace[idF[:2]].eigvals[idF[2]]-egs) >= cutoff:
            continue
        if abs(espace[idI[:2]].eigvals[idI[2]]-egs) >= cutoff:
            continue
        kept[(idF, idI)] = sigma
    return kept
"""))
edit('co_active', C_, ("""    neig = np.zeros((n+1)*(n+1),int)
    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(n,ngs)]
    for i in idx:
        neig[i] = val
    return neig""", """    neig = np.zeros((n+1)*(n+1),int)
    for nup, ndw in find_active_sectors(n,ngs):
        neig[get_sector_index(n,nup,ndw)] = val
    return neig"""))
S_ = 'edpyt/sqtunneling.py'
edit('sq_rate', S_, ("""                W[i,i] -= gamma
                W[f,i] += gamma
    return W
""", """                W[f,i] = W[f,i] + gamma
                W[i,i] = W[i,i] - gamma
    return W
"""))
edit('sq_T', S_, ("""                if isinstance(gf, Gfe):
                    gamma = gf(a, beta, mu)
                elif isinstance(gf, Gfh):
                    gamma = - gf(a, beta, mu)
                else:
                    raise RuntimeError(f"Green function (type(gf)) not recognized.")
            except:
                continue
            T[f,i] = gamma
""", """                value = gf(a, beta, mu)
                if isinstance(gf, Gfh):
                    gamma = -value
                elif isinstance(gf, Gfe):
                    gamma = value
                else:
                    raise RuntimeError(f"Green function (type(gf)) not recognized.")
            except:
                continue
            T[f,i] = gamma
"""))
edit('sq_sector', S_, ("""        if dn>0:
            try:
                gflist = project_add(ispin, n, nupI, ndwI, espace)
            except OutOfHilbertError:
                continue
        else:
            try:
                gflist = project_sub(ispin, n, nupI, ndwI, espace)
            except OutOfHilbertError:
                continue
""", """        project = project_add if dn > 0 else project_sub
        try:
            gflist = project(ispin, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            continue
"""))
edit('sq_nF', S_, ("        return 1/(np.exp(beta*E)+1)\n", "        return np.reciprocal(1. + np.exp(E*beta))\n"))
edit('sq_add', S_, ("""    return [Gfe((nupJ,ndwJ,j),(nupI,ndwI,i),v_JI[j,i],E[j,i]) for j,i in np.ndindex(v_JI.shape[:2])]
""", """    gfs = []
    for j in range(sctJ.eigvals.size):
        for i in range(sctI.eigvals.size):
            gfs.append(Gfe((nupJ,ndwJ,j),(nupI,ndwI,i),v_JI[j,i],E[j,i]))
    return gfs
"""))
D_ = 'edpyt/dmft.py'
edit('dm_fit', D_, ("""        self.H[1:, 0] = self.H[0, 1:] = self.Delta.vk
        self.H.flat[(self.n + 1) :: (self.n + 1)] = self.Delta.ek
""", """        vk = self.Delta.vk
        self.H[0, 1:] = vk
        self.H[1:, 0] = vk
        step = self.n + 1
        self.H.flat[step::step] = self.Delta.ek
"""))
edit('dm_free', D_, ("""        g0_inv = z - self.H[0, 0] - self.Delta(z)
        if inverse:
            return g0_inv
        return np.reciprocal(g0_inv)
""", """        g0_inv = z - (self.H[0, 0] + self.Delta(z))
        return g0_inv if inverse else 1./g0_inv
"""))
edit('dm_sigma', D_, ("        return self.free(z, inverse=True) - np.reciprocal(self.gf(z.real, z.imag))\n", "        g = self.gf(z.real, z.imag)\n        g0_inv = self.free(z, inverse=True)\n        return g0_inv - 1./g\n"))
edit('dm_call', D_, ("        return np.reciprocal(z - self.H[0, 0] - self.Delta(z) - self.Sigma(z))\n", "        return np.reciprocal(self.free(z, inverse=True) - self.Sigma(z))\n"))
edit('dm_mu', D_, ("        return np.reciprocal(z - self.H[0, 0] - self.Delta(z) - self.Sigma(z))\n", "        return np.reciprocal(z + self.mu - self.Delta(z) - self.Sigma(z))\n"))
edit('dm_solve', D_, ("""        H, V = self.H, self.V
        espace, egs = build_espace(H, V, self.neig)
        screen_espace(espace, egs)  # , beta=self.beta)
        if self.adjust_neig:
            adjust_neigsector(espace, self.neig, self.n)
        self.gf = build_gf_lanczos(
            H, V, espace, self.beta, egs, repr="sp", ispin=self.spin
        )
        self.espace = espace
        self.egs = egs
""", """        espace, egs = build_espace(self.H, self.V, self.neig)
        self.espace, self.egs = espace, egs
        screen_espace(espace, egs)
        if self.adjust_neig:
            adjust_neigsector(espace, self.neig, self.n)
        self.gf = build_gf_lanczos(self.H, self.V, espace, self.beta, egs=egs, ispin=self.spin, repr="sp")
"""))
edit('dm_spininit', D_, ("""        self.gfimp = [None, None]
        for s in range(2):
            gfimp = Gfimp(n, nmats, U, beta, neig, adjust_neig, spin=s)
            gfimp.H = self.H[s]
            self.gfimp[s] = gfimp
""", """        self.gfimp = []
        for s in range(2):
            gfimp = Gfimp(n, nmats=nmats, U=U, beta=beta, neig=neig, adjust_neig=adjust_neig, spin=s)
            gfimp.H = self.H[s]
            self.gfimp.append(gfimp)
"""))
edit('dm_spinint', D_, ("        return sum(integrate_gf(gfimp, mu) for gfimp in self)\n", "        return integrate_gf(self.up, mu) + integrate_gf(self.dw, mu)\n"))
edit('dm_spinfit', D_, ("        for i, gfimp in enumerate(self):\n            gfimp.fit(delta[i])\n", "        for gfimp, d in zip(self, delta):\n            gfimp.fit(d)\n"))
edit('dm_spinfit2', D_, ("        for i, gfimp in enumerate(self):\n            gfimp.fit(delta[i])\n", "        self.up.fit(delta[0])\n        self.dw.fit(delta[1])\n"))
edit('dm_weiss', D_, ("        gloc_inv = self(z, inverse=True)\n        return self.Sigma(z) + gloc_inv\n", "        return self(z, inverse=True) + self.Sigma(z)\n"))
edit('dm_hyb', D_, ("""        g0inv = z + self.mu - self.Hybrid(z)
        if inverse:
            return g0inv
        return np.reciprocal(g0inv)
""", """        g0inv = z - self.Hybrid(z) + self.mu
        if not inverse:
            g0inv = np.reciprocal(g0inv)
        return g0inv
"""))
edit('dm_step', D_, ("""        if self.adjust_mu:
            dmft_step_adjust(delta, self.gfimp, self.gfloc, self.occupancy_goal)
            occp = self.gfloc.integrate(self.gfloc.mu)
        else:
            dmft_step(delta, self.gfimp, self.gfloc)
            occp = self.occupancy_goal
        delta_new = self.gfloc.Delta(self.z)
        return np.sum(occp), delta_new
""", """        gfimp, gfloc = self.gfimp, self.gfloc
        if not self.adjust_mu:
            dmft_step(delta, gfimp, gfloc)
            occp = self.occupancy_goal
        else:
            dmft_step_adjust(delta, gfimp, gfloc, self.occupancy_goal)
            occp = gfloc.integrate(gfloc.mu)
        return np.sum(occp), gfloc.Delta(self.z)
"""))
edit('dm_loop', D_, ("""        if eps < self.tol:
            raise Converged("Converged!")
        self.it += 1
        if self.it > self.max_iter:
            raise FailedToConverge("Failed to converge!")
        return delta_new
""", """        converged = eps < self.tol
        if converged:
            raise Converged("Converged!")
        self.it = self.it + 1
        if self.max_iter < self.it:
            raise FailedToConverge("Failed to converge!")
        return delta_new
"""))
edit('dm_z', D_, ("""        wn = (2 * np.arange(gfimp.nmats) + 1) * np.pi / gfimp.beta
        self.z = 1.0j * wn
""", """        n = np.arange(gfimp.nmats)
        wn = np.pi / gfimp.beta * (2 * n + 1)
        self.z = wn * 1.0j
"""))
edit('dm_init', D_, ("""        if mu is None:
            mu = U / 2.0
        self.gfloc.set_local(Sigma)
        self.gfloc.update(mu)
        self.gfimp.update(mu - self.gfloc.ed)
        self.gfimp.reset_bath()
        return self.gfloc.Delta(self.z)
""", """        mu = U / 2.0 if mu is None else mu
        gfloc = self.gfloc
        gfloc.update(mu)
        gfloc.set_local(Sigma)
        self.gfimp.update(mu - gfloc.ed)
        self.gfimp.reset_bath()
        return gfloc.Delta(self.z)
"""))
F_ = 'edpyt/fit_cg.py'
edit('fc_delta', F_, ("""    ek = p[:p.size//2]
    vk2 = p[p.size//2:]**2
    for i in range(z.size):
        out[i] = 0.
        for j in range(ek.size):
            out[i] += vk2[j] / (z[i]-ek[j])
""", """    nbath = p.size//2
    for i in range(z.size):
        acc = 0.
        for j in range(nbath):
            vk = p[nbath+j]
            acc += vk*vk / (z[i]-p[j])
        out[i] = acc
"""))
edit('fc_delta2', F_, ("""    for i in range(z.size):
        out[i] = 0.
        for j in range(ek.size):
            out[i] += vk2[j] / (z[i]-ek[j])
""", """    out[:] = 0.
    for j in range(ek.size):
        for i in range(z.size):
            out[i] += vk2[j] / (z[i]-ek[j])
"""))
edit('fc_dd', F_, ("""    for i in range(z.size):
        for j in range(ek.size):
            out[i,j] = vk2[j] / (z[i]-ek[j])**2
            out[i,j+ek.size] = 2*vk[j] / (z[i]-ek[j])
""", """    nbath = ek.size
    for i in range(z.size):
        for j in range(nbath):
            g = 1. / (z[i]-ek[j])
            out[i,j] = vk2[j] * g**2
            out[i,nbath+j] = 2*vk[j] * g
"""))
edit('fc_chi', F_, ("""    res = 0.
    for i in range(x.size):
        res += ((x[i].real-xt[i].real)**2 + (x[i].imag-xt[i].imag)**2)
    return res / x.size
""", """    res = 0.
    n = x.size
    for i in range(n):
        d = x[i] - xt[i]
        res += d.real**2 + d.imag**2
    return res / n
"""))
edit('fc_bath', F_, ("""        de = bandwidth/max(nhalf-1,1)
        ek[nhalf-1] = -0.1    
        ek[nhalf] = 0.1    
        for i in range(1,nhalf-1):
            ek[i] = -bandwidth + i*de
            ek[nbath-i-1] = bandwidth - i*de
    if nbath_is_odd""", """        de = bandwidth/max(nhalf-1,1)
        ek[nhalf] = 0.1    
        ek[nhalf-1] = -0.1    
        for i in range(1,nhalf-1):
            e = bandwidth - i*de
            ek[i] = -e
            ek[nbath-1-i] = e
    if nbath_is_odd"""))
B_ = 'edpyt/build_mb_ham.py'
edit('mb_diag', B_, ("""    n = diags.size
    res = 0.
    for i in prange(n):
        if (s>>i)&unsiged_dt(1):
            res += diags[i]
    return res
""", """    res = 0.
    for i in prange(diags.size):
        res += diags[i] * ((s>>i)&unsiged_dt(1))
    return res
"""))
edit('mb_onsites', B_, ("""        for iup in range(dup):
            sup = states_up[iup]
            i = iup + idw*dup
            onsite_int    = sum_diags_contrib(int_diags, sup&sdw)
            onsite_energy = vec_diag_up[iup] + onsite_energy_dw
            vec_diag[i] = onsite_energy + onsite_int + hfshift
""", """        start = idw*dup
        for iup in range(dup):
            both = states_up[iup]&sdw
            vec_diag[start+iup] = (vec_diag_up[iup] + onsite_energy_dw
                                   + sum_diags_contrib(int_diags, both) + hfshift)
"""))
edit('mb_build', B_, ("""        U = V.get('U',None)
        Jx = V.get('Jx', None)
        Jp = V.get('Jp', None)
    
    operators = list()
    
    operators.append(build_ham_local(H, U, sct, hfmode=params['hfmode'], mu=params['mu'], z=params['z']))
""", """        U = V.get('U')
        Jx = V.get('Jx')
        Jp = V.get('Jp')

    local = build_ham_local(H, U, sct, hfmode=params['hfmode'], mu=params['mu'], z=params['z'])
    operators = [local]
"""))
