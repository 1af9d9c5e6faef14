from numba import vectorize
import numpy as np
from itertools import zip_longest
from collections import defaultdict
from operator import attrgetter
from edpyt.integrals import Gamma1, Gamma2
from edpyt.sector import OutOfHilbertError, get_c_sector, get_cdg_sector
from edpyt.gf_exact import project_exact_up, project_exact_dw
from edpyt.operators import cdg, c

@vectorize('float64(float64, float64)')
def abs2(r, i):
    return r ** 2 + i ** 2

def projector(ispin):
    if ispin == 0:
        return project_exact_up
    return project_exact_dw

def project_add(ispin_i, ispin_j, n, nupI, ndwI, espace):
    nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin_j)
    nupF, ndwF = get_c_sector(nupJ, ndwJ, ispin_i)
    sctI = espace[nupI, ndwI]
    sctJ = espace[nupJ, ndwJ]
    sctF = espace[nupF, ndwF]
    proj_ispin_j = projector(ispin_j)
    proj_ispin_i = projector(ispin_i)
    sgnI = (-1.0) ** ndwI if ispin_j == 0 else 1.0
    sgnJ = (-1.0) ** ndwJ if ispin_i == 0 else 1.0
    v_JI = np.empty((sctJ.eigvals.size, sctI.eigvals.size, n))
    v_FJ = np.empty((sctF.eigvals.size, sctJ.eigvals.size, n))
    for j in range(n):
        v_JI[..., j] = sgnI * proj_ispin_j(j, n, cdg, sctI, sctJ)
    for i in range(n):
        v_FJ[..., i] = sgnJ * proj_ispin_i(i, n, c, sctJ, sctF)
    dE = sctF.eigvals[:, None] - sctI.eigvals[None, :]
    E = sctJ.eigvals[None, :] - sctI.eigvals[:, None]
    gf2elist = []
    for f, i in np.ndindex(v_FJ.shape[0], v_JI.shape[1]):
        gf2elist.append(Gf2((nupF, ndwF, f), (nupI, ndwI, i), v_FJ[f], v_JI[:, i].copy(), E[i], dE[f, i], (nupJ, ndwJ)))
    return gf2elist

def project_sub(ispin_i, ispin_j, n, nupI, ndwI, espace):
    nupJ, ndwJ = get_c_sector(nupI, ndwI, ispin_j)
    nupF, ndwF = get_cdg_sector(n, nupJ, ndwJ, ispin_i)
    sctI = espace[nupI, ndwI]
    sctJ = espace[nupJ, ndwJ]
    sctF = espace[nupF, ndwF]
    proj_ispin_j = projector(ispin_j)
    proj_ispin_i = projector(ispin_i)
    sgnI = (-1.0) ** ndwI if ispin_j == 0 else 1.0
    sgnJ = (-1.0) ** ndwJ if ispin_i == 0 else 1.0
    v_JI = np.empty((sctJ.eigvals.size, sctI.eigvals.size, n))
    v_FJ = np.empty((sctF.eigvals.size, sctJ.eigvals.size, n))
    for j in range(n):
        v_JI[..., j] = sgnI * proj_ispin_j(j, n, c, sctI, sctJ)
    for i in range(n):
        v_FJ[..., i] = sgnJ * proj_ispin_i(i, n, cdg, sctJ, sctF)
    dE = sctF.eigvals[:, None] - sctI.eigvals[None, :]
    E = -sctJ.eigvals[None, :] + sctI.eigvals[:, None]
    gf2hlist = []
    for f, i in np.ndindex(v_FJ.shape[0], v_JI.shape[1]):
        gf2hlist.append(Gf2((nupF, ndwF, f), (nupI, ndwI, i), v_FJ[f], v_JI[:, i].copy(), E[i], dE[f, i], (nupJ, ndwJ)))
    return gf2hlist

def project_sector(n, nupI, ndwI, espace, sigmadict, ispin=None):
    if ispin is None:
        ispin = [(0, 0), (0, 1), (1, 0), (1, 1)]
    sigmalist = []
    for ispin_i, ispin_j in ispin:
        try:
            gf2elist = project_add(ispin_i, ispin_j, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            gf2elist = (None,)
        try:
            gf2hlist = project_sub(ispin_j, ispin_i, n, nupI, ndwI, espace)
        except OutOfHilbertError:
            gf2hlist = (None,)
        sigmalist.extend([Sigma(gf2e, gf2h) for gf2e, gf2h in zip_longest(gf2elist, gf2hlist)])
    for sigma in sigmalist:
        sigmadict[sigma.idF, sigma.idI].append(sigma)
    return sigmadict

def build_transition_elements(n, egs, espace, cutoff=None):
    ispin = [(0, 0), (0, 1), (1, 0), (1, 1)]
    dS = [(0, 0), (-1, 1), (1, -1), (0, 0)]
    ngs = [ns for ns, sct in espace.items() if abs(sct.eigvals.min() - egs) < 1e-09]
    reached_by_gs = [(ns[0] + ds[0], ns[1] + ds[1]) for ns in ngs for ds in dS]
    reached_by_gs = list(filter(lambda ns: all(((i >= 0) & (i <= n) for i in ns)), reached_by_gs))
    sigmadict = defaultdict(list)
    for ns in np.unique(reached_by_gs, axis=0):
        ispin_subset = [i for i, ds in zip(ispin, dS) if (ns[0] + ds[0], ns[1] + ds[1]) in reached_by_gs]
        project_sector(n, ns[0], ns[1], espace, sigmadict, ispin_subset)
    if cutoff is not None:
        return screen_transition_elements(sigmadict, egs, espace, cutoff)
    return sigmadict

class Gf2:

    def __init__(self, idF, idI, vF, vI, E, dE, nsJ) -> None:
        self.idF = idF
        self.idI = idI
        self.vF = vF
        self.vI = vI
        self.E = E
        self.dE = dE
        self.dS = (idF[0] - idI[0], idF[1] - idI[1])
        self.nsJ = nsJ

    def __call__(self, z, aF, aI):
        z = np.atleast_1d(z)
        res = np.einsum('j,j,kj->k', aF.dot(self.vF.T), aI.dot(self.vI.T), np.reciprocal(z - self.E[None, :]))
        return res

class _Sigma:

    def __init__(self, gf2) -> None:
        self.gf2 = gf2

    def __getattr__(self, name):
        if name in ['idF', 'idI', 'dS', 'dE']:
            return getattr(self.gf2, name)
        raise AttributeError

    @staticmethod
    def G(beta, z):
        if beta * abs(z) < 1e-18:
            return 1.0 / beta
        if beta * z > 1000.0:
            return 0.0
        return z / (np.exp(beta * z) - 1)

    def approximate(self, A, extract, inject, beta, mu):
        return self.G(beta, self.dE - mu[extract] + mu[inject]) * self(0.5 * (self.dE + sum(mu)), A, extract, inject)

class _Sigmae(_Sigma):

    def integrate(self, A, extract, inject, beta, mu):
        return Gamma1(A[inject].dot(self.gf2.vF[0]) * A[extract].dot(self.gf2.vI[0]), self.gf2.E[0], [mu[extract] - self.dE, mu[inject]], beta)

    def __call__(self, z, A, extract, inject):
        res = self.gf2(z, A[inject], A[extract])
        return abs2(res.real, res.imag)

class _Sigmah(_Sigma):

    def integrate(self, A, extract, inject, beta, mu):
        return Gamma1(A[extract].dot(self.gf2.vF[0]) * A[inject].dot(self.gf2.vI[0]), self.gf2.E[0], [mu[extract] - self.dE, mu[inject]], beta)

    def __call__(self, z, A, extract, inject):
        res = self.gf2(z, A[extract], A[inject])
        return abs2(res.real, res.imag)

class Sigma(_Sigma):

    def __new__(cls, gf2e, gf2h):
        if gf2h is None:
            return _Sigmae(gf2e)
        if gf2e is None:
            return _Sigmah(gf2h)
        return super().__new__(cls)

    def __init__(self, gf2e, gf2h) -> None:
        assert np.allclose(gf2e.idF, gf2h.idF) & np.allclose(gf2e.idI, gf2h.idI), '\n                Invalid projections. Initial and final states \n                after N+1 and N-1 projections are not the same.'
        self.gf2e = gf2e
        self.gf2h = gf2h
        super().__init__(self.gf2e)

    def integrate(self, A, extract, inject, beta, mu):
        return Gamma2(A[inject].dot(self.gf2e.vF[0]) * A[extract].dot(self.gf2e.vI[0]), A[extract].dot(self.gf2h.vF[0]) * A[inject].dot(self.gf2h.vI[0]), self.gf2e.E[0], self.gf2h.E[0], [mu[extract] - self.dE, mu[inject]], beta)

    def __call__(self, z, A, extract, inject):
        res = self.gf2e(z, A[inject], A[extract]) + self.gf2h(z, A[extract], A[inject])
        return abs2(res.real, res.imag)

def build_rate_matrix(sigmadict, beta, mu, A, approx_integral=False):
    integrate = attrgetter('approximate') if approx_integral else attrgetter('integrate')
    sz, odd = np.divmod(len(sigmadict), 2)
    assert ~odd, '\n        Invalid sigma list. Each matrix element must contain \n        its complex conjugate.\n    '
    idF = sorted(set([idF for idF, _ in sigmadict.keys()]))
    map = {i: id for i, id in enumerate(idF)}
    sz = len(idF)
    W = np.zeros((sz, sz))
    for extract, inject in np.ndindex(2, 2):
        for i, f in np.ndindex(sz, sz):
            if i != f:
                try:
                    gamma = 0.0
                    for sigma in sigmadict[map[f], map[i]]:
                        gamma += integrate(sigma)(A, extract, inject, beta, mu)
                except KeyError:
                    continue
                W[i, i] -= gamma
                W[f, i] += gamma
    return W

def build_transition_matrix(sigmadict, beta, mu, A, extract, inject, approx_integral=False):
    sz, odd = np.divmod(len(sigmadict), 2)
    assert ~odd, '\n        Invalid sigma list. Each matrix element must contain \n        its complex conjugate.\n    '
    integrate = attrgetter('approximate') if approx_integral else attrgetter('integrate')
    idF = sorted(set([idF for idF, _ in sigmadict.keys()]))
    map = {i: id for i, id in enumerate(idF)}
    sz = len(idF)
    T = np.zeros((sz, sz))
    for i, f in np.ndindex(sz, sz):
        try:
            gamma = 0.0
            for sigma in sigmadict[map[f], map[i]]:
                gamma += integrate(sigma)(A, extract, inject, beta, mu)
                gamma -= integrate(sigma)(A, inject, extract, beta, mu)
        except KeyError:
            continue
        T[f, i] = gamma
    return T

def screen_transition_elements(sigmadict, egs, espace, cutoff):
    return {(idF, idI): sigma for (idF, idI), sigma in sigmadict.items() if abs(sigma[0].dE) < cutoff and abs(espace[idF[:2]].eigvals[idF[2]] - egs) < cutoff and (abs(espace[idI[:2]].eigvals[idI[2]] - egs) < cutoff)}

def find_active_sectors(n, ngs):
    dS = [(0, 0), (-1, 1), (1, -1)]
    dN = [(0, 1), (0, -1), (1, 0), (-1, 0)]
    reached_by_gs = [(ns[0] + ds[0], ns[1] + ds[1]) for ns in ngs for ds in dS]
    reached_by_gs = list(filter(lambda ns: all(((i >= 0) & (i <= n) for i in ns)), reached_by_gs))
    active_sectors = [ns for ns in reached_by_gs]
    for ns in np.unique(reached_by_gs, axis=0):
        active_sectors.extend([(ns[0] + dn[0], ns[1] + dn[1]) for ds in dS for dn in dN if (ns[0] + ds[0], ns[1] + ds[1]) in reached_by_gs])
    active_sectors = filter(lambda ns: all(((i >= 0) & (i <= n) for i in ns)), active_sectors)
    return sorted([tuple(ns) for ns in set(active_sectors)])

def get_active_neig(n, ngs, val=2):
    from edpyt.lookup import get_sector_index
    neig = np.zeros((n + 1) * (n + 1), int)
    idx = [get_sector_index(n, nup, ndw) for nup, ndw in find_active_sectors(n, ngs)]
    for i in idx:
        neig[i] = val
    return neig
