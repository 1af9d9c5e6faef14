From 59472c82be196166c5575c60090595e1838349b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 01/38] fix: build the exchange/pair-hopping Hamiltonian when
 only one of them is given

---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From 18fa4f7e10341ac2c01bf062b695c25d1aa20cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 02/38] fix: use the up on-site energies for up spins in
 particle-number sectors

---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..7edfcda 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += edwdiag[i]*ndw[i] + eupdiag[i]*nup[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From ce093569cbfe33d4895b1793f8a815b372cae848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 03/38] fix: do not toggle the writeable flag of the caller's
 Hamiltonian

---
 edpyt/build_mb_ham.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index daba0ec..76ac05b 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -38,8 +38,7 @@ def build_mb_ham(H, V, sct, comm=None):
 
     """
     n = H.shape[-1]
-    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H
-    H.flags.writeable = False
+    H = np.broadcast_to(H, (2,n,n)) # readonly view
 
     if isinstance(V, np.ndarray):
         U = V
@@ -71,8 +70,6 @@ def build_mb_ham(H, V, sct, comm=None):
     if (Jx is not None) or (Jp is not None):
         operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
 
-    H.flags.writeable = True
-
     return operators
 
 
-- 
2.43.0


From 7de6a6ff524e0b911b79ff663a346b9804f215db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 04/38] fix: do not reshape the caller's eigenvectors in place
 when counting occupations

---
 edpyt/observs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..06469b9 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -87,7 +87,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From 3b7a62f782fe0ea466155384b53a51b509d9bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 05/38] fix: accept an output array in the matrix-vector
 operator

---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..2ecea1b 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From 21df2248e70d69da47011a92b690ec092a80b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 06/38] fix: dense form of a Hamiltonian with only a diagonal
 operator

---
 edpyt/matvec_product.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 2ecea1b..cee3a49 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,6 +86,8 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
+    if not ops:
+        return np.diag(np.sum(diag_op, axis=0))
     out = ops.pop().todense()
     n = out.shape[0]
     for op in ops:
-- 
2.43.0


From 3f883c49cdd034bd24126f3d5bdff73fc8f96b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 07/38] fix: report the status code of dseupd, not the one of
 dsaupd

---
 edpyt/eigh_arpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eigh_arpack.py b/edpyt/eigh_arpack.py
index 47dfead..a8a2ae2 100644
--- a/edpyt/eigh_arpack.py
+++ b/edpyt/eigh_arpack.py
@@ -207,7 +207,7 @@ def eigsh(n, nev, matvec, v0=None, arpack_param=None):
                    # n=n, ncv=ncv, ldv=ldv, lworkl=lworkl)
 
     if ierr != 0:
-        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[info]}')
+        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[ierr]}')
 
     nconv = iparam[4]
     d = d[:nconv]
-- 
2.43.0


From 2c19f76b00e001b0e437ba4d452b2b4dbbabd301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 08/38] fix: raise when LAPACK fails on the tridiagonal matrix

---
 edpyt/tridiag.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 1d0573d..bd880d4 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -10,15 +10,22 @@ stemr_lwork = get_lapack_funcs('stemr_lwork', dtype=np.float64)
 egs_tridiag = lambda a, b: _solve_partial(a,b,eigvals_only=True)[0][0] #stebz(a,b,2,0.,1.,1,1,0.,'E')[1][0]
 gs_tridiag = lambda a, b: _solve_partial(a,b)
 
+def _check_info(name, info):
+    if info != 0:
+        raise np.linalg.LinAlgError(f'Error with {name}, info = {info}')
+
+
 def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     il = select_range[0] + 1
     iu = select_range[1] + 1
     order = 'E' if eigvals_only else 'B'
     m, w, iblock, isplit, info = stebz(a,b,2,0.,1.,il,iu,0.,order)
+    _check_info('stebz', info)
     w = w[:m]
     if eigvals_only:
         return w, None
     v, info = stein(a,b,w,iblock,isplit)
+    _check_info('stein', info)
     return w, v[:, :m]
 
 
@@ -27,7 +34,9 @@ def _solve_full(a, b, eigvals_only=False):
     b_[:-1] = b
     compute_v = not eigvals_only
     lwork, liwork, info = stemr_lwork(a,b_,0,0.,1.,1,1,compute_v=compute_v)
+    _check_info('stemr_lwork', info)
     m, w, v, info = stemr(a,b_,0,0.,1.,1,1,compute_v=compute_v,lwork=lwork,liwork=liwork)
+    _check_info('stemr', info)
     return w, v
 
 
-- 
2.43.0


From 793a26f575204acd040abbd0cffc1b97a147d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 09/38] fix: exact Green's function of the down spin uses the
 sectors with one more down spin

---
 edpyt/gf_exact.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..b52f8eb 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -9,6 +9,10 @@ from edpyt.shared import (
     unsiged_dt
 )
 
+from edpyt.sector import (
+    OutOfHilbertError, get_cdg_sector
+)
+
 from edpyt.operators import (
     c, cdg, check_empty, check_full
 )
@@ -110,11 +114,10 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
-        # Cannot have more spin than spin states
-        if nupJ > n: continue
+        try: # Add spin (N+1 sector)
+            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
+        except OutOfHilbertError: # More spin than spin states
+            continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From 3a8e4b1c3acc253eae9c3195ce6a981b19f0843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 10/38] fix: build_gf_lanczos does not overwrite the sectors of
 the caller's espace

---
 edpyt/gf_lanczos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..c2021d6 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -181,6 +181,7 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                sctJ = build_empty_sector(n, nupJ, ndwJ) # do not modify espace
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
@@ -216,6 +217,7 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                sctJ = build_empty_sector(n, nupJ, ndwJ) # do not modify espace
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
-- 
2.43.0


From 94fa70bb415971cebbf469b6c7a31942ea85f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 11/38] fix: skip states annihilated by the operator in
 build_gf_offdiag

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From b07659548ab2805569d2dc43c306670c8641c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 12/38] fix: integrate_gf uses the radius it is given

---
 edpyt/integrate_gf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..8c6a7b3 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -86,7 +86,6 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
         zp = np.resize(zp, mu.shape)
         a_p = mu + 1j*zp/beta
 
-    R = 1e10
     mu_0 = 1j*R*gf(1.j*R)
 
     mu_1 = complex(0)
-- 
2.43.0


From 2e53a080f3903dc18bcb8c874e3fcbe752584a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 13/38] fix: restore the chemical potential when the Matsubara
 sum fails

---
 edpyt/integrate_gf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index 8c6a7b3..7d2eeae 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -113,11 +113,13 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
 def matsum_gf(gf, mu=0., nmats=3000, beta=70.):
     
     mu_old = gf.mu
-    gf.mu = mu
-    
     z = 1.j*(2*np.arange(nmats)+1)*np.pi/beta
     w2 = z.imag**2
-    gf_z  = gf(z)
+    gf.mu = mu
+    try:
+        gf_z  = gf(z)
+    finally:
+        gf.mu = mu_old
     mu = - gf_z[...,-1].real * w2[-1]
     mu2 = mu**2
     
@@ -132,6 +134,4 @@ def matsum_gf(gf, mu=0., nmats=3000, beta=70.):
     # if np.any((mu*beta) < -30.): At = -np.exp(mu*beta)
     n = s * 2. / beta + At + 1.
     
-    gf.mu = mu_old
-    
     return n
\ No newline at end of file
-- 
2.43.0


From 81592655f01c09c797a716fe5783d48fe19a6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 14/38] fix: clamp the non-causal part of the hybridisation
 itself, not of a copy

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..ae08c97 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -445,7 +445,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From 98a447702270690166457a572c6bcef243b62f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 15/38] fix: reject an unknown mixing method

---
 edpyt/dmft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index ae08c97..262c57b 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -483,3 +483,5 @@ class DMFT:
             self.solve_with_linear_mixing(delta, **kwargs)
         elif mixing_method == "broyden":
             self.solve_with_broyden_mixing(delta, **kwargs)
+        else:
+            raise ValueError(f"Invalid mixing method {mixing_method}. Use 'linear' or 'broyden'.")
-- 
2.43.0


From 4ab6173480bee6af3414e09d2d4018fa23ef7c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 16/38] fix: default chemical potential of SpinGfimp.integrate

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 262c57b..52688fe 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -252,7 +252,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 4cf3cd7dd78c6f2ec385943b8fea859edc0d02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 17/38] fix: cotunneling active sectors stay inside the Hilbert
 space

---
 edpyt/cotunneling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..2c56d6d 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -373,7 +373,7 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
             and(abs(espace[idI[:2]].eigvals[idI[2]]-egs)<cutoff)}
 
 
-def find_active_sectors(ngs):
+def find_active_sectors(n, ngs):
     """Find all sectors that are necessary to diagonalize in order
     to build the cotunniling transition and rate matrices.
     Args:
@@ -384,17 +384,19 @@ def find_active_sectors(ngs):
     dS = [(0,0),(-1,1),(1,-1)]
     dN = [(0,1),(0,-1),(1,0),(-1,0)]
     reached_by_gs = [(ns[0]+ds[0],ns[1]+ds[1]) for ns in ngs for ds in dS]
+    reached_by_gs = list(filter(lambda ns: all((i>=0)&(i<=n) for i in ns), reached_by_gs))
     active_sectors = [ns for ns in reached_by_gs]
     for ns in np.unique(reached_by_gs,axis=0):
         active_sectors.extend([(ns[0]+dn[0],ns[1]+dn[1]) for ds in dS for dn in dN 
                                if (ns[0]+ds[0],ns[1]+ds[1]) in reached_by_gs])
+    active_sectors = filter(lambda ns: all((i>=0)&(i<=n) for i in ns), active_sectors)
     return sorted([tuple(ns) for ns in set(active_sectors)])
 
 
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(n,ngs)]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From 6cac415ba13ad82d41dfdabe878bb295d5dfdd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 18/38] fix: misplaced parenthesis in the numerically
 integrated cotunneling rate

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..4a2198d 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -265,8 +265,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From e3d0cce220d7b54973424e816245752b39afafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 19/38] fix: limit of z/(exp(beta*z)-1) for vanishing z is
 1/beta

---
 edpyt/cotnl.py       | 2 +-
 edpyt/cotunneling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 4a2198d..41e08a4 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -210,7 +210,7 @@ nF.__doc__ = "Fermi function."
 def G(beta, z):
     """Helper function for approximate solution."""
     if (beta*abs(z))<1e-18:
-        return 1.
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
     return z/(np.exp(beta*z)-1)
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 2c56d6d..85fd7bc 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -230,7 +230,7 @@ class _Sigma:
     def G(beta, z):
         """Helper function for approximate solution."""
         if (beta*abs(z))<1e-18:
-            return 1.
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
         return z/(np.exp(beta*z)-1)
-- 
2.43.0


From 2d2c96c1c8f3bcccf0221a2d7e624da2d855bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 20/38] fix: include the empty and the full sector in the
 transition tables

---
 edpyt/cotnl.py | 4 ++--
 edpyt/sqtnl.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 41e08a4..fa14985 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From 53c302917026c76473621d886bd317b0aecf1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 21/38] fix: drop unused imports of undeclared and private
 modules

---
 edpyt/cotnl.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index fa14985..7c02c82 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -6,9 +6,6 @@ from itertools import product
 from collections import defaultdict
 from operator import attrgetter
 
-from numpy.lib.function_base import extract
-from traitlets.traitlets import default
-
 from edpyt.integrals import I1, I2, Gamma1, Gamma2, Gamma4
 from edpyt.lookup import binsearch
 from edpyt.operators import cdg, c
-- 
2.43.0


From 26bc4449f062bb941e8cd1365181e0868270209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 22/38] fix: intrep is the inverse of binrep

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From 0d9171dab2025a927ec108824e33153f87fcfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 23/38] fix: refuse an uneven division of the down states among
 processes

---
 edpyt/observs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 06469b9..b787eb5 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -118,6 +118,8 @@ def _get_evecs_occupation_mpi(evecs, states_up, states_dw, n, comm, coeffs=None)
     NOTE: states_dw is the full hilbert down space, NOT the local.
     """
     from mpi4py import MPI
+    if (states_dw.size%comm.size)!=0:
+        raise ValueError('# of MPI processes must be a divisor of hilbert down space.')
     dwn_local = states_dw.size//comm.size
     nup_local, ndw_local = _get_evecs_occupation(evecs, states_up,
         states_dw[comm.rank*dwn_local:(comm.rank+1)*dwn_local], n, coeffs)
-- 
2.43.0


From f28e3942aef83e734ee12c9cdaa7aef5203f28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 24/38] fix: refuse an uneven division of the impurities among
 processes

---
 edpyt/nano_dmft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..34daac5 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -42,6 +42,8 @@ def _get_idx_world(comm, n):
     if comm is None:
         return slice(None)
     else:
+        if (n%comm.size)!=0:
+            raise ValueError('# of MPI processes must be a divisor of # of impurities.')
         stride = n//comm.size
         return slice(comm.rank*stride,(comm.rank+1)*stride)
 
-- 
2.43.0


From 47ff1dc74c8d9a7d62728e9f6bef3c3512e44573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 25/38] fix: all ranks use the same error to stop the DED loop

---
 edpyt/ded.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/ded.py b/edpyt/ded.py
index a94a9e0..9191051 100644
--- a/edpyt/ded.py
+++ b/edpyt/ded.py
@@ -127,7 +127,8 @@ while (it<max_it) and (abs(eps)>tol):
         plt.savefig(rootdir/f'lorentz_ded_{it}.png', dpi=300)
         plt.close()
     
-    sigma0 += comm.bcast(eps, root=0)
+    eps = comm.bcast(eps, root=0)
+    sigma0 += eps
     it += 1
 
 if rank==0: 
-- 
2.43.0


From bb8523868b9951b3c074e3c42296a906c812a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 26/38] fix: signature and undefined names of
 get_evecs_occupation

---
 edpyt/dedlib_dev.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1a0a6bd..9d147d1 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -131,7 +131,7 @@ class Gfimp:
         return np.reciprocal(z-self.e0-self.delta(z).sum(1))
 
 # @njit(cache=True,fastmath=True)
-def get_evecs_occupation(evecs, exps, states, pos):
+def get_evecs_occupation(evecs, exps, states_up, states_dw, pos):
     """Count particles in sector eigen-state vectors (size=dup x dwn).
 
     """
-- 
2.43.0


From 937cd2be1d97ec57d394c876c4668c38471ffdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 27/38] fix: every bath energy is initialised for three bath
 sites

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From 5e739c24994a0a9f602d3e70c803ffef4838968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 28/38] fix: check every allocation of cmatrix before it is
 used

---
 edpyt_backend/util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt_backend/util.c b/edpyt_backend/util.c
index 75185b5..6648717 100644
--- a/edpyt_backend/util.c
+++ b/edpyt_backend/util.c
@@ -41,10 +41,11 @@ double complex **cmatrix(long m, long n)
 	double complex **v;
 
 	v = (double complex**)malloc((size_t) (m*sizeof(double complex*)));
+	if (!v) nrerror("allocation failure in vector()");
     for (int i=0; i<m; i++) {
         v[i] = (double complex*)malloc((size_t) (n*sizeof(double complex)));
+        if (!v[i]) nrerror("allocation failure in vector()");
 	}
-	if (!v) nrerror("allocation failure in vector()");
 	return v;
 }
 
-- 
2.43.0


From 6c521c9ce6f0d458ec3e64eec27f78e4bf42b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 29/38] fix: start the fit from the initial bath instead of
 uninitialised memory

---
 edpyt_backend/fit_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..3383602 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -11,11 +11,16 @@ fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
                 ct.POINTER(ct.c_double),ct.c_int,ct.c_int,
                 ndpointer(np.complex128),ct.c_double]
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 
 
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath # read by init_bath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 17b5c4306da18b0c6dcc6104e7d4cf841a458cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 30/38] fix: pass contiguous arrays of the right type to the C
 fit

---
 edpyt/fit_cffi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edpyt/fit_cffi.py b/edpyt/fit_cffi.py
index ee8d3a2..9cf12a3 100644
--- a/edpyt/fit_cffi.py
+++ b/edpyt/fit_cffi.py
@@ -1,14 +1,18 @@
+import numpy as np
 from edpyt_backend._fit import lib, ffi
 
 _cfit = lib.fit
 
 def fit_hybrid(x, nmats, delta, beta):
     nbath = x.size//2
+    p = np.array(x, np.float64) # contiguous copy
+    delta = np.ascontiguousarray(delta, np.complex128)
     it = ffi.new('int*')
     fret = ffi.new('double* ')
-    x_ptr = ffi.cast('double*', x.ctypes.data)
+    x_ptr = ffi.cast('double*', p.ctypes.data)
     delta_ptr = ffi.cast('double _Complex*', delta.ctypes.data)
     lib.fit(x_ptr, it, fret, nbath, nmats, delta_ptr, beta)
+    x[:] = p
     return it[0], fret[0]
 
 
-- 
2.43.0


From 701798a4ca1efcbcf869057ad92df6f5b3dac2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 31/38] fix: one copy of the bath energies per spin in the
 non-interacting spectrum

---
 edpyt/espace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/espace.py b/edpyt/espace.py
index 075ebfe..74245ec 100644
--- a/edpyt/espace.py
+++ b/edpyt/espace.py
@@ -186,7 +186,7 @@ def build_non_interacting_espace(ek):
 
     n = ek.size
     Uk = np.zeros_like(ek)
-    ek = np.tile(ek, (2,n))
+    ek = np.tile(ek, (2,1))
     
     for qns, sct in _sz_iter_sectors(n):
         states = sct.states
-- 
2.43.0


From e96d0eee2cb88120b296d7e7cca96d697ed7ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:17 +0000
Subject: [PATCH 32/38] fix: eprint recognises spin-resolved sectors

---
 edpyt/eshow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eshow.py b/edpyt/eshow.py
index 02a21e9..85f9598 100644
--- a/edpyt/eshow.py
+++ b/edpyt/eshow.py
@@ -24,7 +24,7 @@ def eprint(espace, n):
     def fockstates(sct):
         
         states = []
-        if hasattr(states,'up'):
+        if hasattr(sct.states,'up'):
             for sdw in sct.states.dw:
                 for sup in sct.states.up:
                     states.append( fock(sup,sdw,n) )
-- 
2.43.0


From 339ed181079d96f0c94af01d78c9f3689990cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:15 +0000
Subject: [PATCH 33/38] fix: I2 passes the expansion variable to Taylor

---
 edpyt/integrals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..683fd06 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -66,10 +66,10 @@ def I2(A, B, epsA, epsB, mu, beta):
         return 0. # -1.
     if abs(x) < 1e-15:
         return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
+              Taylor(0,x,epsA,mu[1],beta) 
+            - Taylor(0,x,epsA,mu[0],beta) 
+            - Taylor(0,x,epsB,mu[1],beta)
+            + Taylor(0,x,epsB,mu[0],beta)
         )
     return A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
-- 
2.43.0


From b0a106e77056b250ce76e5dd326ffb15caa64b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 34/38] fix: ded.py imports the solver dedlib provides

---
 edpyt/ded.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ded.py b/edpyt/ded.py
index 9191051..2f6b60f 100644
--- a/edpyt/ded.py
+++ b/edpyt/ded.py
@@ -14,7 +14,7 @@ from matplotlib import pyplot as plt
 
 from edpyt.espace import build_espace
 from edpyt.gf_lanczos import build_gf_lanczos
-from edpyt.dedlib import ded_solve, smooth
+from edpyt.dedlib import siam_solve as ded_solve, smooth
 
 import random
 import logging
-- 
2.43.0


From 81120cfa45d49c915f4f715b46db2fdcba81c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 35/38] fix: dedopt defines its communicator instead of
 importing a missing module

---
 edpyt/dedopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/dedopt.py b/edpyt/dedopt.py
index 6f326b0..222e3bf 100644
--- a/edpyt/dedopt.py
+++ b/edpyt/dedopt.py
@@ -4,7 +4,8 @@ import numpy as np
 from scipy import optimize as opt
 
 from mpi4py import MPI
-from edpyt.parallel import *
+
+comm = MPI.COMM_WORLD
 
 x0 = 0.3 # !! Must be the same for all ranks.
 x = np.ones(10,complex)
-- 
2.43.0


From 76b24b290d9ae7c6a7df2053de61f47b516bac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 36/38] fix: build_mb_ham rejects an interaction that is
 neither an array nor a dictionary

---
 edpyt/build_mb_ham.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index 76ac05b..83bf8be 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -48,6 +48,8 @@ def build_mb_ham(H, V, sct, comm=None):
         U = V.get('U',None)
         Jx = V.get('Jx', None)
         Jp = V.get('Jp', None)
+    else:
+        raise TypeError("V must be an array or a dictionary of arrays.")
     # dup = states_up.size
     # dwn = states_dw.size
     # if comm is not None:
-- 
2.43.0


From e2f0769ce55878c10ae138b1c2758f5828bdc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 37/38] fix: multi-orbital DED solvers accept the scalar U they
 default to

---
 edpyt/dedlib.py     | 5 ++++-
 edpyt/dedlib_dev.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..face558 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -335,10 +335,13 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if isinstance(U, np.ndarray):    # interacting e-e interaction.
         V1 = V0.copy()              
         V1[:nimp,:nimp] = U
-    if isinstance(U, dict):
+    elif isinstance(U, dict):
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
             V1[k][:nimp,:nimp] += U[k]
+    else:                            # same on-site repulsion for all
+        V1 = V0.copy()
+        V1.flat[:nimp*(n+1):n+1] = U
     nbath = (n-nimp)//nimp          # # of bath sites per impurity.
     subsystem_pos = np.zeros((nimp,nbath+1),int) # site indices fo each subsytem.
     for i in range(nimp):
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 9d147d1..1eb2e33 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -380,10 +380,13 @@ def ded_solve_multi(dos, z, sigma=None, sigma0=None, n=8,
     if isinstance(U, np.ndarray):
         V1 = V0.copy()
         V1[:nimp,:nimp] = U
-    if isinstance(U, dict):
+    elif isinstance(U, dict):
         V1 = defaultdict(lambda : np.zeros((n,n)))
         for k in U.keys():
             V1[k][:nimp,:nimp] += U[k]
+    else:                            # same on-site repulsion for all
+        V1 = V0.copy()
+        V1.flat[:nimp*(n+1):n+1] = U
     nbath = (n-nimp)//nimp
     subsystem_pos = np.zeros((nimp,nbath+1),int)
     for i in range(nimp):
-- 
2.43.0


From 65085e7cdbc5e2941ea2e5fa1827e24658ccd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 38/38] fix: rate and transition matrices treat every error as
 a missing element

The handlers are meant for pairs of states without a matrix element, but they
also swallowed the errors of the computation (and the explicit refusal of
unknown Green's functions), leaving zero rates.
---
 edpyt/cotunneling.py | 4 ++--
 edpyt/sqtunneling.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 85fd7bc..3c1d71f 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -336,7 +336,7 @@ def build_rate_matrix(sigmadict, beta, mu, A, approx_integral=False):
                     gamma = 0.
                     for sigma in sigmadict[map[f],map[i]]:
                         gamma += integrate(sigma)(A, extract, inject, beta, mu)
-                except:
+                except KeyError:
                     continue
                 W[i,i] -= gamma
                 W[f,i] += gamma
@@ -360,7 +360,7 @@ def build_transition_matrix(sigmadict, beta, mu, A, extract, inject, approx_inte
             for sigma in sigmadict[map[f],map[i]]:
                 gamma += integrate(sigma)(A, extract, inject, beta, mu)
                 gamma -= integrate(sigma)(A, inject, extract, beta, mu)
-        except:
+        except KeyError:
             continue
         T[f,i] = gamma
     return T
diff --git a/edpyt/sqtunneling.py b/edpyt/sqtunneling.py
index 0e34729..b895c8d 100644
--- a/edpyt/sqtunneling.py
+++ b/edpyt/sqtunneling.py
@@ -161,7 +161,7 @@ def build_rate_matrix(gfdict, beta, mu, A):
                 try:
                     gf = gfdict[map[f],map[i]]
                     gamma = gf(A[lead], beta, mu[lead])
-                except:
+                except KeyError:
                     continue
                 W[i,i] -= gamma
                 W[f,i] += gamma
@@ -199,7 +199,7 @@ def build_transition_matrix(gfdict, beta, mu, a):
                     gamma = - gf(a, beta, mu)
                 else:
                     raise RuntimeError(f"Green function (type(gf)) not recognized.")
-            except:
+            except KeyError:
                 continue
             T[f,i] = gamma
     return T
-- 
2.43.0

