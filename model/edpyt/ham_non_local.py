import numpy as np
from itertools import product, permutations
from scipy.sparse import csr_matrix
from warnings import warn
from edpyt.ham_hopping import cs_type
from edpyt.shared import unsigned_one as uone
from edpyt.operators import cdgc, c, cdg
from edpyt.lookup import binsearch, count_bits
from edpyt.sector import binom
from edpyt.ham_hopping import empty_csrmat, count_nnz_offdiag, nnz_offdiag_csrmat
from edpyt import _psparse
warn_offdiag = 'Neglecting off-diagonal {interaction} couplings.'

def nnz_csrmat(A, nnz):
    n = np.int32(A.shape[0])
    sp_A = empty_csrmat(nnz, (n, n))
    count = 0
    for i in range(n):
        init_count = count
        for j in range(n):
            if abs(A[i, j]) > 1e-07:
                sp_A.indices[count] = j
                sp_A.data[count] = A[i, j]
                count += 1
        sp_A.indptr[i + 1] = sp_A.indptr[i] + (count - init_count)
    return sp_A

def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
    dup = states_up.size
    dwn = states_dw.size
    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
    Nup = count_bits(states_up[0], n)
    Ndw = count_bits(states_dw[0], n)
    if Jx is None:
        nnz_x = 0
    else:
        nnz_x = count_nnz_offdiag(Jx)
        if np.any(Jx.diagonal()):
            warn(warn_offdiag.format(interaction='spin-exchange'))
        Jx = nnz_offdiag_csrmat(Jx, nnz_x)
    if Jp is None:
        nnz_p = 0
    else:
        nnz_p = count_nnz_offdiag(Jp)
        if np.any(Jp.diagonal()):
            warn(warn_offdiag.format(interaction='pair-hopping'))
        Jp = nnz_offdiag_csrmat(Jp, nnz_p)
    nnz = (nnz_x + nnz_p) * int(binom(n - 2, Nup - 1)) * int(binom(n - 2, Ndw - 1))
    sp_mat = empty_csrmat(nnz, (dwn * dup, dwn * dup))
    count = 0
    for idw in range(dwn):
        nup = np.empty(n, np.uint32)
        ndw = np.empty(n, np.uint32)
        sdw = states_dw[idw]
        for i in range(n):
            ndw[i] = sdw >> i & uone
        for iup in range(dup):
            init_count = count
            Indx = iup + dup * idw
            sup = states_up[iup]
            for i in range(n):
                nup[i] = sup >> i & uone
            if Jx is not None:
                tmp = 0.0
                for i in range(n):
                    if (not nup[i]) & ndw[i]:
                        for p in range(Jx.indptr[i], Jx.indptr[i + 1]):
                            j = Jx.indices[p]
                            if nup[j] & (not ndw[j]):
                                sgn_up, fup = cdgc(sup, i, j)
                                jup = binsearch(states_up, fup)
                                sgn_dw, fdw = cdgc(sdw, j, i)
                                jdw = binsearch(states_dw, fdw)
                                Jndx = jdw * dup + jup
                                sp_mat.data[count] = -sgn_up * sgn_dw * Jx.data[p]
                                sp_mat.indices[count] = Jndx
                                count += 1
                    for p in range(Jx.indptr[i], Jx.indptr[i + 1]):
                        j = Jx.indices[p]
                        tmp += Jx.data[p] * (nup[i] * nup[j] + ndw[i] * ndw[j])
                tmp *= -0.5
                vec_diag[iup + idw * dup] += tmp
            if Jp is not None:
                for i in range(n):
                    if (not nup[i]) & (not ndw[i]):
                        for p in range(Jp.indptr[i], Jp.indptr[i + 1]):
                            j = Jp.indices[p]
                            if nup[j] & ndw[j]:
                                sgn_up, fup = cdgc(sup, i, j)
                                jup = binsearch(states_up, fup)
                                sgn_dw, fdw = cdgc(sdw, i, j)
                                jdw = binsearch(states_dw, fdw)
                                Jndx = jdw * dup + jup
                                sp_mat.data[count] = sgn_up * sgn_dw * Jp.data[p]
                                sp_mat.indices[count] = Jndx
                                count += 1
            sp_mat.indptr[Indx + 1] = sp_mat.indptr[Indx] + (count - init_count)
    if count != sp_mat.data.size:
        warn(f'Number of non-zero elements for sector ({Nup},{Ndw}) lower than calculated.')
        sp_mat = cs_type(sp_mat.data[:count], sp_mat.indptr, sp_mat.indices[:count], sp_mat.shape)
    return sp_mat

def _N_build_ham_non_local(Jx, Jp, states, vec_diag):
    d = states.size
    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
    N = count_bits(states[0], 2 * n)
    if Jx is None:
        nnz_x = 0
    else:
        nnz_x = count_nnz_offdiag(Jx)
        if np.any(Jx.diagonal()):
            warn(warn_offdiag.format(interaction='spin-exchange'))
        Jx = nnz_offdiag_csrmat(Jx, nnz_x)
    if Jp is None:
        nnz_p = 0
    else:
        nnz_p = count_nnz_offdiag(Jp)
        if np.any(Jp.diagonal()):
            warn(warn_offdiag.format(interaction='pair-hopping'))
        Jp = nnz_offdiag_csrmat(Jp, nnz_p)
    data = []
    indices = []
    indptr = [0]
    count = 0
    sgn = np.empty(4)
    for idu in range(d):
        s = states[idu]
        init_count = count
        if Jx is not None:
            for i in range(n):
                for p in range(Jx.indptr[i], Jx.indptr[i + 1]):
                    for sigma, gamma in product(range(2), repeat=2):
                        j = Jx.indices[p]
                        try:
                            sgn[0], f = c(s, j + sigma * n, 2 * n)
                            sgn[1], f = c(f, i + gamma * n, 2 * n)
                            sgn[2], f = cdg(f, j + gamma * n, 2 * n)
                            sgn[3], f = cdg(f, i + sigma * n, 2 * n)
                        except:
                            continue
                        data.append(np.prod(sgn) * Jx.data[p] / 2.0)
                        indices.append(binsearch(states, f))
                        count += 1
        if Jp is not None:
            for i in range(n):
                for p in range(Jp.indptr[i], Jp.indptr[i + 1]):
                    for sigma, gamma in permutations(range(2), r=2):
                        j = Jp.indices[p]
                        try:
                            sgn[0], f = c(s, j + sigma * n, 2 * n)
                            sgn[1], f = c(f, j + gamma * n, 2 * n)
                            sgn[2], f = cdg(f, i + gamma * n, 2 * n)
                            sgn[3], f = cdg(f, i + sigma * n, 2 * n)
                        except:
                            continue
                        data.append(np.prod(sgn) * Jp.data[p] / 2.0)
                        indices.append(binsearch(states, f))
                        count += 1
        indptr.append(indptr[idu] + (count - init_count))
    return cs_type(data, indptr, indices, (d, d))

def build_ham_non_local(Jx, Jp, sct, vec_diag):
    if hasattr(sct.states, 'up'):
        sp_mat = _build_ham_non_local(Jx, Jp, sct.states.up, sct.states.dw, vec_diag)
    else:
        sp_mat = _N_build_ham_non_local(Jx, Jp, sct.states, vec_diag)
    sp_mat = NonLocal((sp_mat.data, sp_mat.indices, sp_mat.indptr), shape=sp_mat.shape)
    return sp_mat

class NonLocal(csr_matrix):

    def matvec(self, other, out):
        _psparse.Multiply(self, other, out)

    def todense(self, order=None, out=None):
        return np.asarray(super().todense(order=order, out=out))
