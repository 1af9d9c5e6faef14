import numpy as np
from scipy import linalg as la
from scipy.constants import e, k
"References:\n\ni) http://www1.spms.ntu.edu.sg/~ydchong/teaching/08_contour_integration.pdf\n\nii) Efficient Integration of Green's functions: Ver. 1.1\n\n"

def zero_fermi(nzp):
    N = nzp
    M = 2 * N
    A = np.zeros((2 * M, 2 * M))
    B = np.zeros((2 * M, 2 * M))
    zp = np.zeros(2 + M)
    Rp = np.zeros(2 + M)
    for i in range(1, M + 1):
        B[i, i] = 2 * i - 1
    for i in range(1, M):
        A[i, i + 1] = -0.5
        A[i + 1, i] = -0.5
    a = np.zeros(M * M)
    b = np.zeros(M * M)
    for i in range(M):
        for j in range(M):
            a[j * M + i] = A[i + 1, j + 1]
            b[j * M + i] = B[i + 1, j + 1]
    a.shape = (M, M)
    b.shape = (M, M)
    eigvals, eigvecs = la.eigh(a, b)
    zp[:M] = eigvals
    for i in range(M, 0, -1):
        zp[i] = zp[i - 1]
    for i in range(1, M + 1):
        zp[i] = 1.0 / zp[i]
    a = eigvecs.T.flatten()
    for i in range(0, M):
        Rp[i + 1] = -a[i * M] * a[i * M] * zp[i + 1] * zp[i + 1] * 0.25
    zp = -zp[1:N + 1]
    Rp = Rp[1:N + 1]
    return (zp, Rp)

def integrate_gf(gf, mu=0, T=300, nzp=100, R=10000000000.0):
    zp, Rp = zero_fermi(nzp)
    N = nzp
    k_B = k / e
    beta = 1 / (k_B * T)
    if np.isscalar(mu):
        a_p = mu + 1j * zp / beta
    else:
        mu = np.broadcast_to(mu, (nzp,) + mu.shape)
        zp = np.resize(zp, mu.shape)
        a_p = mu + 1j * zp / beta
    mu_0 = 1j * R * gf(1j * R)
    mu_1 = complex(0)
    for i in range(N):
        mu_1 += gf(a_p[i]) * Rp[i]
    mu_1 *= -1j * 4 / beta
    rho = np.real(mu_0) + np.imag(mu_1)
    return rho / 2.0

def matsum_gf(gf, mu=0.0, nmats=3000, beta=70.0):
    mu_old = gf.mu
    z = 1j * (2 * np.arange(nmats) + 1) * np.pi / beta
    w2 = z.imag ** 2
    gf.mu = mu
    try:
        gf_z = gf(z)
    finally:
        gf.mu = mu_old
    mu = -gf_z[..., -1].real * w2[-1]
    mu2 = mu ** 2
    s = np.zeros_like(mu2)
    for i in range(z.size):
        tail = -(mu + z[i]) / (mu2 + w2[i])
        s += (gf_z[..., i] - tail).real
    with np.errstate(over='ignore'):
        At = -1.0 / (1.0 + np.exp(-beta * mu))
    n = s * 2.0 / beta + At + 1.0
    return n
