from collections import defaultdict
from re import escape
import numpy as np
from edpyt.cotnl import c, cdg, Gf2e, Gf2h, check_transition_elements, dict_to_matrix, project

def extract_sequential_from_cotunneling(sigmadict):
    gfdict = defaultdict(list)
    gfedict = defaultdict(list)
    gfhdict = defaultdict(list)
    for (idF, idI), sigmalist in sigmadict.items():
        N, i = idI
        N, f = idF
        if i != f:
            continue
        for sigma in sigmalist:
            spins = sigma.spins
            for gf in sigma.gf2:
                if isinstance(gf, Gf2e):
                    for j in range(gf.vI.shape[0]):
                        gfedict[(N + 1, j), (N, i), spins[1]].append(Gfe(spins[1], gf.vI[j], gf.E[j]))
                        gfhdict[(N, f), (N + 1, j), spins[0]].append(Gfh(spins[0], gf.vF[j], gf.E[j]))
                elif isinstance(gf, Gf2h):
                    for j in range(gf.vI.shape[0]):
                        gfhdict[(N - 1, j), (N, i), spins[1]].append(Gfh(spins[1], gf.vI[j], gf.E[j]))
                        gfedict[(N, f), (N - 1, j), spins[0]].append(Gfe(spins[0], gf.vF[j], gf.E[j]))
    for (idF, idI, spin), gflist in gfedict.items():
        gfdict[idF, idI].extend(gflist)
    for (idF, idI, spin), gflist in gfhdict.items():
        gfdict[idF, idI].extend(gflist)
    return gfdict

def excite_states(spin, operator, n, sctI, sctJ):
    v_JI = np.empty((sctJ.eigvals.size, sctI.eigvals.size, n))
    for j in range(n):
        v_JI[..., j] = project(spin, j, operator, n, sctI, sctJ)
    return v_JI

def excite_electron(spin, n, N, espace):
    sctI = espace[N,]
    sctJ = espace[N + 1,]
    v_JI = excite_states(spin, cdg, n, sctI, sctJ)
    dE_JI = sctJ.eigvals[:, None] - sctI.eigvals[None, :]
    gfdict = dict()
    for j, i in np.ndindex(dE_JI.shape):
        gfdict[(N + 1, j), (N, i)] = Gfe(spin, v_JI[j, i], dE_JI[j, i])
    return gfdict

def excite_hole(spin, n, N, espace):
    sctI = espace[N,]
    sctJ = espace[N - 1,]
    v_JI = excite_states(spin, c, n, sctI, sctJ)
    dE_JI = -sctJ.eigvals[:, None] + sctI.eigvals[None, :]
    gfdict = dict()
    for j, i in np.ndindex(dE_JI.shape):
        gfdict[(N - 1, j), (N, i)] = Gfh(spin, v_JI[j, i], dE_JI[j, i])
    return gfdict

def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
    if N is None:
        assert egs is not None, 'Must provide either groud state or particle sector number.'
        egs = np.inf
        for qns, sct in espace.items():
            if egs > sct.eigvals.min():
                N = qns[0]
                egs = sct.eigvals.min()
    sigmadict = defaultdict(list)
    N_max = 2 * n
    for spin in range(2):
        if N + 1 <= N_max:
            gfdict = excite_electron(spin, n, N, espace)
            gfdict.update(excite_hole(spin, n, N + 1, espace))
            for k in gfdict:
                sigmadict[k].append(gfdict[k])
        if N - 1 >= 0:
            gfdict = excite_hole(spin, n, N, espace)
            gfdict.update(excite_electron(spin, n, N - 1, espace))
            for k in gfdict:
                sigmadict[k].append(gfdict[k])
    sigmadict = {(idF, idI): sigmadict[idF, idI] for idF, idI in sorted(sigmadict.keys())}
    return sigmadict

def nF(x):
    if x > 100.0:
        return 0.0
    return 1.0 / (np.exp(x) + 1.0)

class Gf:

    def __init__(self, spin, v, E) -> None:
        self.spin = spin
        self.v = v
        self.E = E

    def y(self, a):
        return np.inner(self.v, a) ** 2

class Gfe(Gf):

    def __repr__(self) -> str:
        return f'Gfe(spin={self.spin},E={self.E}.'

    def __call__(self, a, beta, mu):
        return self.y(a) * nF(beta * (self.E - mu))

class Gfh(Gf):

    def __repr__(self) -> str:
        return f'Gfh(spin={self.spin},E={self.E}.'

    def __call__(self, a, beta, mu):
        return self.y(a) * nF(-beta * (self.E - mu))

def build_rate_and_transition_matrices(gfdict, beta, mu, A, extract, inject, build_matrices=True):
    check_transition_elements(gfdict)
    W = defaultdict(lambda: 0.0)
    T = defaultdict(lambda: 0.0)
    for (idF, idI), gflist in gfdict.items():
        gamma = np.zeros(2)
        for lead in range(2):
            for gf in gflist:
                gamma[lead] += gf(A[lead], beta, mu[lead])
        if idF != idI:
            W[idI, idI] -= gamma.sum()
            W[idF, idI] += gamma.sum()
        if isinstance(gf, Gfe):
            T[idF, idI] -= gamma[inject]
        elif isinstance(gf, Gfh):
            T[idF, idI] += gamma[inject]
    if build_matrices:
        return map(lambda D: dict_to_matrix(D), [W, T])
    return (W, T)
