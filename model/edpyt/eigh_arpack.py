import numpy as np
from scipy.sparse.linalg.eigen.arpack import _arpack
from scipy.sparse.linalg.eigen.arpack.arpack import DSAUPD_ERRORS, DSEUPD_ERRORS, _SymmetricArpackParams, _ARPACK_LOCK
from scipy._lib._util import _aligned_zeros
arpack_int = np.dtype('int32')
tp = 'd'
arpack_solver = _arpack.dsaupd
arpack_extract = _arpack.dseupd

class ArpackParams:

    def __init__(self, maxn, maxncv, ldv, v0=None):
        self.v = np.zeros((ldv, maxncv), tp)
        self.workl = _aligned_zeros(maxncv * (maxncv + 8), tp)
        self.workd = _aligned_zeros(3 * maxn, tp)
        self.resid = np.zeros(maxn, tp)
        if v0 is None:
            self.info = 0
        else:
            self.resid[:v0.size] = v0
            self.info = 1
        self.select = np.zeros(maxncv, 'int')
        self.iparam = np.zeros(11, arpack_int)
        self.ipntr = np.zeros(11, arpack_int)

def eigsh(n, nev, matvec, v0=None, arpack_param=None):
    ncv = min(max(2 * nev + 1, 20), n)
    bmat = 'I'
    which = 'SA'
    sigma = 0.0
    if arpack_param is None:
        ldv = n
        arpack_param = ArpackParams(n, ncv, ldv, v0)
    v = arpack_param.v
    workl = arpack_param.workl
    workd = arpack_param.workd
    resid = arpack_param.resid
    info = arpack_param.info
    select = arpack_param.select
    iparam = arpack_param.iparam
    ipntr = arpack_param.ipntr
    maxn = arpack_param.resid.size
    maxncv = arpack_param.v.shape[1]
    assert n <= maxn, 'n is greater than maxn'
    assert ncv <= maxncv, 'ncv is greater than maxncv'
    lworkl = ncv * (ncv + 8)
    tol = 0.0
    ido = 0
    ierr = 0
    ishfts = 1
    maxitr = n * 10
    mode = 1
    iparam[0] = ishfts
    iparam[2] = maxitr
    iparam[3] = 1
    iparam[6] = mode
    while True:
        ido, tol, resid, v, iparam, ipntr, info = arpack_solver(ido, bmat, which, nev, tol, resid, v, iparam, ipntr, workd, workl, info)
        xslice = slice(ipntr[0] - 1, ipntr[0] - 1 + n)
        yslice = slice(ipntr[1] - 1, ipntr[1] - 1 + n)
        if ido == 1 or ido == -1:
            workd[yslice] = matvec(workd[xslice])
        else:
            break
    if info < 0:
        raise RuntimeError(f'Error with dsaupd, info = {DSAUPD_ERRORS[info]}')
    rvec = True
    d, z, ierr = arpack_extract(rvec, 'A', select, sigma, bmat, which, nev, tol, resid, v, iparam[:7], ipntr, workd[:2 * n], workl, ierr)
    if ierr != 0:
        raise RuntimeError(f'Error with dseupd, info = {DSEUPD_ERRORS[ierr]}')
    nconv = iparam[4]
    d = d[:nconv]
    z = z[:, :nconv]
    return (d, z)
