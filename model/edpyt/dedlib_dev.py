from collections import defaultdict
import numpy as np
from numba import njit
from scipy.optimize import fsolve
from scipy.interpolate import interp1d
from scipy import fftpack
from scipy.constants import physical_constants
from edpyt.gf_lanczos import build_gf_lanczos
kB = physical_constants['Boltzmann constant in eV/K'][0]
from edpyt.espace import build_espace, get_espace_dim, screen_espace, adjust_neigsector, build_non_interacting_espace
from edpyt.gf_exact import build_gf_exact
from edpyt.operators import check_full
from numba import njit
import random as _random

@njit()
def cumsum(a):
    for i in range(1, a.size):
        a[i] += a[i - 1]

class RandomSampler:

    def __init__(self, p, lims, n=4, rng=_random, nsamples=1000000.0):
        self.eners = np.linspace(lims[0], lims[1], int(np.diff(lims) * nsamples + 1), endpoint=True)
        cdf = p(self.eners)
        cdf /= cdf.sum()
        cumsum(cdf)
        self.cdf = cdf
        self.poles = np.empty(n)
        self.rng = rng

    def __call__(self):
        n = self.poles.size
        for i in range(n):
            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random())]
        self.poles.sort()

class Gf0:

    def __init__(self, rs):
        self.rs = rs
        self.poles = self.rs.poles
        self.n = self.poles.size

    def sample(self):
        self.rs()

    def __call__(self, z):
        return 1 / self.n * np.reciprocal(z[:, None] - self.poles[None, :]).sum(1)

    def derivative(self, z0):
        return np.sum(-1 / (z0 - self.poles) ** 2) / self.n

class Gfimp:

    def __init__(self, n):
        self.ek = np.empty(n - 1)
        self.vk2 = np.empty(n - 1)
        self.e0 = 0.0

    def fit(self, gf0):
        poles = gf0.poles
        n = poles.size
        for i in range(n - 1):
            self.ek[i] = fsolve(gf0, (poles[i + 1] + poles[i]) / 2)
            self.vk2[i] = -1 / gf0.derivative(self.ek[i])
        self.e0 = poles.mean()

    def delta(self, z):
        return self.vk2[None, :] * np.reciprocal(z[:, None] - self.ek[None, :])

    def __call__(self, z):
        return np.reciprocal(z - self.e0 - self.delta(z).sum(1))

def get_evecs_occupation(evecs, exps, states_up, states_dw, pos):
    N = 0.0
    dup = states_up.size
    dwn = states_dw.size
    if evecs.flags.f_contiguous:
        evecs = evecs.T
    occps = (evecs ** 2).reshape(-1, dwn, dup)
    for iup in range(dup):
        sup = states_up[iup]
        if check_full(sup, pos):
            N += (exps * occps[:, :, iup].sum(1)).sum()
    for idw in range(dwn):
        sdw = states_dw[idw]
        if check_full(sdw, pos):
            N += (exps * occps[:, idw, :].sum(1)).sum()
    return N

def get_occupation(espace, egs, beta, pos):
    N = 0.0
    Z = 0.0
    for sct in espace.values():
        exps = np.exp(-beta * (sct.eigvals - egs))
        evecs = sct.eigvecs
        N += get_evecs_occupation(evecs, exps, sct.states.up, sct.states.dw, pos)
        Z += exps.sum()
    N /= Z
    return N

def get_entropy(gfimp, espace, egs, beta):
    espace_bath, egs_bath = build_non_interacting_espace(gfimp.ek)
    E, Z = _get_entropy_params(espace, egs, beta)
    E_bath, Z_bath = _get_entropy_params(espace_bath, egs_bath, beta)
    T = 1 / (kB * beta)
    S = _calc_entropy(Z, E, T)
    S_bath = _calc_entropy(Z_bath, E_bath, T)
    return S - S_bath
_calc_entropy = lambda Z, E, T: kB * np.log(Z) + E / T
_calc_entropy.__doc__ = 'Helper function to assemble Entropy.'

def _get_entropy_params(espace, egs, beta):
    E = 0.0
    Z = 0.0
    for sct in espace.values():
        eigvals = sct.eigvals - egs
        exps = np.exp(-beta * eigvals)
        Z += exps.sum()
        E += (eigvals * exps).sum()
    E /= Z
    return (E, Z)

def build_siam(H, gfimp):
    vk = np.sqrt(gfimp.vk2)
    n = H.shape[-1]
    H[1:, 0] = H[0, 1:] = -vk
    H.flat[n + 1::n + 1] = gfimp.ek
    H[0, 0] = gfimp.e0

def ded_solve(dos, z, sigma=None, sigma0=None, n=4, N=int(1000.0), U=3.0, beta=1000000.0, rng=_random):
    return_sigma = False
    if sigma is None:
        sigma = np.zeros_like(z)
        return_sigma = True
    if sigma0 is None:
        sigma0 = U / 2.0
    imp_occp0 = 0.0
    imp_occp1 = 0.0
    imp_entropy = 0.0
    H = np.zeros((n, n))
    V = np.zeros((n, n))
    rs = RandomSampler(dos, [z.real[0], z.real[-1]], n, rng)
    gf0 = Gf0(rs)
    gfimp = Gfimp(n)
    neig1 = get_espace_dim(n, neig_max=3)
    neig0 = neig1.copy()
    Q = 0.0
    for _ in range(N):
        found = False
        while not found:
            gf0.sample()
            gfimp.fit(gf0)
            V[0, 0] = 0.0
            build_siam(H, gfimp)
            espace, egs0 = build_espace(H, V, neig0)
            N0, sct = next(((k, v) for k, v in espace.items() if abs(v.eigvals[0] - egs0) < 1e-07))
            occp0 = get_occupation(espace, egs0, beta, 0)
            V[0, 0] = U
            H[0, 0] -= sigma0
            espace, egs = build_espace(H, V, neig1)
            N1, sct = next(((k, v) for k, v in espace.items() if abs(v.eigvals[0] - egs) < 1e-07))
            if np.allclose(N1, N0):
                found = True
            occp1 = get_occupation(espace, egs, beta, 0)
            qv = np.exp(-beta * abs(espace[N1].eigvals.min() - espace[N0].eigvals.min()))
            gf = build_gf_exact(H, V, espace, beta, egs)
            sigma += (np.reciprocal(gf0(z)) - np.reciprocal(gf(z.real, z.imag))) * qv
            imp_occp0 += occp0 * qv
            imp_occp1 += occp1 * qv
            imp_entropy += get_entropy(gfimp, espace, egs, beta) * qv
            Q += qv
    sigma /= Q
    imp_occp0 /= Q
    imp_occp1 /= Q
    imp_entropy /= Q * kB
    if return_sigma:
        return (sigma, imp_occp0, imp_occp1, imp_entropy)
    return (imp_occp0, imp_occp1, imp_entropy)

def build_moam(H, gfimp):
    nimp = len(gfimp)
    n = H.shape[-1]
    for i, gf in enumerate(gfimp):
        vk = np.sqrt(gf.vk2)
        nbath = vk.size
        bl = i * nbath + nimp
        bh = bl + nbath
        H[bl:bh, i] = H[i, bl:bh] = -vk
        dl = (nimp + i * nbath) * (n + 1)
        dh = dl + nbath * (n + 1)
        H.flat[dl:dh:n + 1] = gf.ek
        H[i, i] = gf.e0
from edpyt.observs import get_occupation as _get_occupation_full

def get_occupation_full(espace, egs, beta, n):
    return sum(_get_occupation_full(espace, egs, beta, n))

def ded_solve_multi(dos, z, sigma=None, sigma0=None, n=8, N=int(1000.0), U=3.0, beta=1000000.0, rng=_random):
    nimp = len(dos)
    return_sigma = False
    if sigma is None:
        sigma = np.zeros((nimp, z.size), complex)
        return_sigma = True
    else:
        sigma[:] = 0.0
    if sigma0 is None:
        sigma0 = U / 2.0
    imp_occp0 = np.zeros(nimp)
    imp_occp1 = np.zeros(nimp)
    H = np.zeros((n, n))
    V0 = np.zeros((n, n))
    if isinstance(U, np.ndarray):
        V1 = V0.copy()
        V1[:nimp, :nimp] = U
    elif isinstance(U, dict):
        V1 = defaultdict(lambda: np.zeros((n, n)))
        for k in U.keys():
            V1[k][:nimp, :nimp] += U[k]
    else:
        V1 = V0.copy()
        V1.flat[:nimp * (n + 1):n + 1] = U
    nbath = (n - nimp) // nimp
    subsystem_pos = np.zeros((nimp, nbath + 1), int)
    for i in range(nimp):
        bl = i * nbath + nimp
        bh = bl + nbath
        pos = np.arange(bl, bh)
        subsystem_pos[i, :] = np.insert(pos, 0, i)
    gf0 = []
    gfimp = []
    for i in range(nimp):
        rs = RandomSampler(dos[i], [z.real[0], z.real[-1]], nbath + 1, rng)
        gf0.append(Gf0(rs))
        gfimp.append(Gfimp(nbath + 1))
    neig1 = get_espace_dim(n, neig_max=3)
    neig0 = neig1.copy()
    Q = np.zeros(nimp)
    for _ in range(N):
        found = False
        while not found:
            for i in range(nimp):
                gf0[i].sample()
                gfimp[i].fit(gf0[i])
            build_moam(H, gfimp)
            espace, egs = build_espace(H, V0, neig0)
            screen_espace(espace, egs, beta)
            occps = get_occupation_full(espace, egs, beta, n)
            N0 = [occps[pos].sum() for pos in subsystem_pos]
            occp0 = [occps[i] for i in range(nimp)]
            H.flat[:nimp * (n + 1):n + 1] -= sigma0
            espace, egs = build_espace(H, V1, neig1)
            screen_espace(espace, egs, beta)
            occps = get_occupation_full(espace, egs, beta, n)
            N1 = [occps[pos].sum() for pos in subsystem_pos]
            occp1 = [occps[i] for i in range(nimp)]
            for i in range(nimp):
                if abs(N0[i] - N1[i]) > 1e-07:
                    continue
                found = True
                gf = build_gf_lanczos(H, V1, espace, beta, egs, pos=i)
                sigma[i] += np.reciprocal(gf0[i](z)) - np.reciprocal(gf(z.real, z.imag))
                imp_occp0[i] += occp0[i]
                imp_occp1[i] += occp1[i]
                Q[i] += 1
    Q = np.where(Q > 0, Q, 1)
    sigma /= Q[:, None]
    imp_occp0 /= Q
    imp_occp1 /= Q
    if return_sigma:
        return (sigma, imp_occp0, imp_occp1)
    return (imp_occp0, imp_occp1)

def smooth(energies, sigma, cutoff=2):
    sig_interp = interp1d(energies, sigma)
    ne_interp = (energies.max() - energies.min()) / 0.01 + 1
    energies_interp = np.linspace(energies.min(), energies.max(), int(ne_interp), endpoint=True)
    sig = sig_interp(energies_interp)
    sample_freq = fftpack.fftfreq(sig.size, d=energies_interp[1] - energies_interp[0])
    sig_imag_fft = fftpack.fft(sig.imag)
    sig_imag_fft[np.abs(sample_freq) > cutoff] = 0
    filtered_imag_sig = fftpack.ifft(sig_imag_fft).real
    sig_real_fft = fftpack.fft(sig.real)
    sig_real_fft[np.abs(sample_freq) > cutoff] = 0
    filtered_real_sig = fftpack.ifft(sig_real_fft).real
    smooth_sig = filtered_real_sig + 1j * filtered_imag_sig
    smooth_sig_interp = interp1d(energies_interp, smooth_sig, bounds_error=False, fill_value=0.0)
    return smooth_sig_interp
