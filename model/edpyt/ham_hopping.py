from collections import namedtuple
from types import MethodType
import numpy as np
from numba import njit, prange
from numba.types import int64, uint32
from edpyt.lookup import binsearch, count_bits
from edpyt.operators import cdgc, check_empty, check_full
from edpyt.sector import binom
from scipy.sparse import csr_matrix
from edpyt import _psparse
cs_type = namedtuple('cs_type', ['data', 'indptr', 'indices', 'shape'])

def empty_csrmat(nnz, shape):
    data = np.empty(nnz, np.float64)
    indptr = np.empty(shape[0] + 1, np.int32)
    indptr[0] = 0
    indices = np.empty(nnz, np.int32)
    return cs_type(data, indptr, indices, shape)

@njit
def count_nnz_offdiag(A):
    count = 0
    n = A.shape[0]
    for i in range(n):
        for j in range(n):
            if i != j and abs(A[i, j]) > 1e-07:
                count += 1
    return count

def nnz_offdiag_csrmat(A, nnz):
    n = np.int32(A.shape[0])
    sp_A = empty_csrmat(nnz, (n, n))
    count = 0
    for i in range(n):
        init_count = count
        for j in range(n):
            if i != j and abs(A[i, j]) > 1e-07:
                sp_A.indices[count] = j
                sp_A.data[count] = A[i, j]
                count += 1
        sp_A.indptr[i + 1] = sp_A.indptr[i] + (count - init_count)
    return sp_A

def add_hoppings(ix_s, states, T, count, sp_mat):
    s = states[ix_s]
    init_count = count
    for i in range(T.shape[0]):
        if check_empty(s, i):
            for p in range(T.indptr[i], T.indptr[i + 1]):
                j = T.indices[p]
                if check_full(s, j):
                    sgn, f = cdgc(s, i, j)
                    sp_mat.data[count] = T.data[p] * np.float64(sgn)
                    sp_mat.indices[count] = binsearch(states, f)
                    count += 1
    sp_mat.indptr[ix_s + 1] = sp_mat.indptr[ix_s] + (count - init_count)
    return count

def build_ham_hopping(H, sct):
    if not hasattr(sct.states, 'up'):
        raise NotImplementedError
    states_up = sct.states.up
    states_dw = sct.states.dw
    n = H.shape[-1]
    nup = count_bits(states_up[0], n)
    ndw = count_bits(states_dw[0], n)
    dup = states_up.size
    dwn = states_dw.size
    nnz_offdiag = count_nnz_offdiag(H[0])
    T = nnz_offdiag_csrmat(H[0], nnz_offdiag)
    nnz_up_count = nnz_offdiag * int(binom(n - 2, nup - 1))
    sp_mat_up = empty_csrmat(nnz_up_count, (dup, dup))
    count = 0
    for iup in range(dup):
        count = add_hoppings(iup, states_up, T, count, sp_mat_up)
    nnz_offdiag = count_nnz_offdiag(H[1])
    T = nnz_offdiag_csrmat(H[1], nnz_offdiag)
    nnz_dw_count = nnz_offdiag * int(binom(n - 2, ndw - 1))
    sp_mat_dw = empty_csrmat(nnz_dw_count, (dwn, dwn))
    count = 0
    for idw in range(dwn):
        count = add_hoppings(idw, states_dw, T, count, sp_mat_dw)
    sp_mat_up = UpHopping((sp_mat_up.data, sp_mat_up.indices, sp_mat_up.indptr), dwn, shape=sp_mat_up.shape)
    sp_mat_dw = DwHopping((sp_mat_dw.data, sp_mat_dw.indices, sp_mat_dw.indptr), dup, shape=sp_mat_dw.shape)
    return (sp_mat_up, sp_mat_dw)

class UpHopping(csr_matrix):

    def __init__(self, arg1, dwn, shape=None, dtype=None, copy=False):
        self.dwn = dwn
        super().__init__(arg1, shape=shape, dtype=dtype, copy=copy)

    def todense(self):
        return np.kron(np.eye(self.dwn), np.asarray(super().todense()))

    def matvec(self, other, out):
        _psparse.UPmultiply(self, other, out)

class DwHopping(csr_matrix):

    def __init__(self, arg1, dup, shape=None, dtype=None, copy=False):
        self.dup = dup
        super().__init__(arg1, shape=shape, dtype=dtype, copy=copy)

    def todense(self):
        return np.kron(np.asarray(super().todense()), np.eye(self.dup))

    def matvec(self, other, out):
        _psparse.DWmultiply(self, other, out)
