import numpy as np
from numba import vectorize, prange
from edpyt.lookup import binsearch
from edpyt.shared import unsiged_dt
from edpyt.sector import OutOfHilbertError, get_cdg_sector
from edpyt.operators import c, cdg, check_empty, check_full

class Gf:

    def __init__(self, q, l, Z):
        self.q = np.asarray(q)
        self.l = np.asarray(l)
        self.Z = Z

    def __call__(self, e, eta):
        z = np.atleast_1d(e + 1j * eta)
        res = np.dot(np.reciprocal(z[:, None] - self.l[None, :]), self.q)
        return res / self.Z

def project_exact_up(pos, n, op, sctI, sctJ):
    v0 = np.zeros((sctJ.eigvals.size, sctI.eigvals.size))
    check_occupation = check_full if op is c else check_empty
    for iupI in range(sctI.states.up.size):
        supI = sctI.states.up[iupI]
        if check_occupation(supI, pos):
            sgnJ, supJ = op(supI, pos, n)
            iupJ = binsearch(sctJ.states.up, supJ)
            v0 += np.float64(sgnJ) * sctJ.eigvecs[iupJ::sctJ.states.up.size, :].T.dot(sctI.eigvecs[iupI::sctI.states.up.size, :])
    return v0

def project_exact_dw(pos, n, op, sctI, sctJ):
    v0 = np.zeros((sctJ.eigvals.size, sctI.eigvals.size))
    check_occupation = check_full if op is c else check_empty
    for idwI in range(sctI.states.dw.size):
        sdwI = sctI.states.dw[idwI]
        if check_occupation(sdwI, pos):
            sgnJ, sdwJ = op(sdwI, pos, n)
            idwJ = binsearch(sctJ.states.dw, sdwJ)
            v0 += np.float64(sgnJ) * sctJ.eigvecs[idwJ * sctJ.states.up.size:(idwJ + 1) * sctJ.states.up.size, :].T.dot(sctI.eigvecs[idwI * sctI.states.up.size:(idwI + 1) * sctI.states.up.size, :])
    return v0

def build_gf_exact(H, V, espace, beta, egs=0.0, pos=0, ispin=0):
    n = H.shape[-1]
    project_exact = [project_exact_up, project_exact_dw][ispin]
    lambdas = []
    qs = []
    for nupI, ndwI in espace.keys():
        sctI = espace[nupI, ndwI]
        try:
            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
        except OutOfHilbertError:
            continue
        sctJ = espace[nupJ, ndwJ]
        EI = (sctI.eigvals - egs)[None, :]
        EJ = (sctJ.eigvals - egs)[:, None]
        exponents = np.exp(-beta * EJ) + np.exp(-beta * EI)
        bJ = project_exact(pos, n, cdg, sctI, sctJ)
        lambdas.extend((EJ - EI).flatten())
        qs.extend((bJ ** 2 * exponents).flatten())
    Z = sum((np.exp(-beta * (sct.eigvals - egs)).sum() for (nup, ndw), sct in espace.items()))
    gf = Gf(qs, lambdas, Z)
    return gf
