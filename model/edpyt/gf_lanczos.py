import numpy as np
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import build_empty_sector, solve_sector
from edpyt.lanczos import ZeroNormInitialVector, build_sl_tridiag
from edpyt.lookup import binsearch
from edpyt.matvec_product import matvec_operator
from edpyt.operators import c, cdg, check_empty, check_full
from edpyt.operators import check_empty as not_empty
from edpyt.operators import check_full as not_full
from edpyt.tridiag import eigh_tridiagonal
from edpyt._continued_fraction import continued_fraction as _cfpyx
from edpyt.sector import OutOfHilbertError, get_cdg_sector, get_c_sector
from edpyt.gf_exact import project_exact_up, project_exact_dw

def continued_fraction(a, b):
    sz = a.size

    def inner(e, eta, n=sz):
        z = np.atleast_1d(e + 1j * eta)
        return _cfpyx(z, a, b)
    inner.a = a
    inner.b = b
    return inner

def spectral(l, q):

    def inner(e, eta):
        z = np.atleast_1d(e + 1j * eta)
        return np.dot(np.reciprocal(z[:, None] - l[None, :]), q)
    return inner
_reprs = ['cf', 'sp']

class Gf:

    def __init__(self):
        self.funcs = []
        self.Z = np.inf

    def add(self, kernel, a, b):
        self.funcs.append(kernel(a, b))

    def __call__(self, e, eta):
        out = np.sum([f(e, eta) for f in self.funcs], axis=0)
        return out / self.Z

def project_up(pos, n, op, sctI, sctJ):
    v0 = np.zeros((sctI.eigvals.size, sctJ.d))
    check_occupation = check_full if op is c else check_empty
    for iupI in range(sctI.states.up.size):
        supI = sctI.states.up[iupI]
        if check_occupation(supI, pos):
            sgnJ, supJ = op(supI, pos, n)
            iupJ = binsearch(sctJ.states.up, supJ)
            v0[:, iupJ::sctJ.states.up.size] = np.float64(sgnJ) * sctI.eigvecs[iupI::sctI.states.up.size, :].T
    return v0

def project_dw(pos, n, op, sctI, sctJ):
    v0 = np.zeros((sctI.eigvals.size, sctJ.d))
    check_occupation = check_full if op is c else check_empty
    for idwI in range(sctI.states.dw.size):
        sdwI = sctI.states.dw[idwI]
        if check_occupation(sdwI, pos):
            sgnJ, sdwJ = op(sdwI, pos, n)
            idwJ = binsearch(sctJ.states.dw, sdwJ)
            v0[:, idwJ * sctJ.states.up.size:(idwJ + 1) * sctJ.states.up.size] = np.float64(sgnJ) * sctI.eigvecs[idwI * sctI.states.up.size:(idwI + 1) * sctI.states.up.size, :].T
    return v0

def build_gf_coeff_sp(a, b, Ei=0.0, exponent=1.0, sign=1):
    En, Un = eigh_tridiagonal(a, b[1:])
    q = (Un[0] * b[0]) ** 2 * exponent
    En -= Ei
    if sign < 0:
        En *= -1.0
    return (En, q)

def build_gf_coeff_cf(a, b, Ei=0.0, exponent=1.0, sign=1):
    b **= 2
    b[0] *= exponent
    a -= Ei
    if sign < 0:
        a *= -1.0
    return (a, b)

def build_gf_lanczos(H, V, espace, beta, egs=0.0, pos=0, repr='cf', ispin=0, separate=False):
    n = H.shape[-1]
    irepr = _reprs.index(repr)
    gf_kernel = [continued_fraction, spectral][irepr]
    build_gf_coeff = [build_gf_coeff_cf, build_gf_coeff_sp][irepr]
    project_exact = [project_exact_up, project_exact_dw][ispin]
    project = [project_up, project_dw][ispin]
    gfe = Gf()
    if separate:
        gfh = Gf()
    else:
        gfh = gfe
    for nupI, ndwI in espace.keys():
        sctI = espace[nupI, ndwI]
        exponents = np.exp(-beta * (sctI.eigvals - egs))
        try:
            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
        except OutOfHilbertError:
            pass
        else:
            sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
            if sctJ.d <= 10:
                sctJ = build_empty_sector(n, nupJ, ndwJ)
                sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                bJ = project_exact(pos, n, cdg, sctI, sctJ)
                l = sctJ.eigvals[:, None] - sctI.eigvals[None, :]
                q = bJ ** 2 * exponents[None, :]
                gfe.add(spectral, l.reshape(-1), q.reshape(-1))
            else:
                v0 = project(pos, n, cdg, sctI, sctJ)
                matvec = matvec_operator(*build_mb_ham(H, V, sctJ))
                for iL in range(sctI.eigvals.size):
                    try:
                        aJ, bJ = build_sl_tridiag(matvec, v0[iL])
                    except ZeroNormInitialVector:
                        continue
                    gfe.add(gf_kernel, *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL]))
        try:
            nupJ, ndwJ = get_c_sector(nupI, ndwI, ispin)
        except OutOfHilbertError:
            pass
        else:
            sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
            if sctJ.d <= 10:
                sctJ = build_empty_sector(n, nupJ, ndwJ)
                sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                bJ = project_exact(pos, n, c, sctI, sctJ)
                l = -sctJ.eigvals[:, None] + sctI.eigvals[None, :]
                q = bJ ** 2 * exponents[None, :]
                gfh.add(spectral, l.reshape(-1), q.reshape(-1))
            else:
                v0 = project(pos, n, c, sctI, sctJ)
                matvec = matvec_operator(*build_mb_ham(H, V, sctJ))
                for iL in range(sctI.eigvals.size):
                    try:
                        aJ, bJ = build_sl_tridiag(matvec, v0[iL])
                    except ZeroNormInitialVector:
                        continue
                    gfh.add(gf_kernel, *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1))
    Z = sum((np.exp(-beta * (sct.eigvals - egs)).sum() for (nup, ndw), sct in espace.items()))
    gfe.Z = Z
    gfh.Z = Z
    if separate:
        return (gfe, gfh)
    return gfe
