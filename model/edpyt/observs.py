import numpy as np
from edpyt.operators import n_op

def get_occupation(espace, egs, beta, n):
    nup = np.zeros(n)
    ndw = np.zeros(n)
    Z = 0.0
    for sct in espace.values():
        exps = np.exp(-beta * (sct.eigvals - egs))
        evecs = sct.eigvecs
        nup_nev, ndw_nev = get_evecs_occupation(evecs, sct.states.up, sct.states.dw, n, exps)
        nup += nup_nev.sum(1)
        ndw += ndw_nev.sum(1)
        Z += exps.sum()
    nup /= Z
    ndw /= Z
    return (nup, ndw)

def get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None, comm=None):
    if comm is None:
        return _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs)
    else:
        return _get_evecs_occupation_mpi(evecs, states_up, states_dw, n, comm, coeffs)

def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
    dup = states_up.size
    dwn = states_dw.size
    nev = evecs.shape[1]
    nup = np.zeros((n, nev))
    ndw = np.zeros((n, nev))
    occps = np.zeros(nev)
    if evecs.flags.f_contiguous:
        evecs = evecs.T
        evecs.shape = (nev, dwn, dup)
        if coeffs is None:
            contract_up = lambda iup: np.einsum('ij,ji->i', evecs[:, :, iup], evecs[:, :, iup].T, out=occps, optimize=True)
            contract_dw = lambda idw: np.einsum('ij,ji->i', evecs[:, idw, :], evecs[:, idw, :].T, out=occps, optimize=True)
        else:
            contract_up = lambda iup: np.einsum('i,ij,ji->i', coeffs, evecs[:, :, iup], evecs[:, :, iup].T, out=occps, optimize=True)
            contract_dw = lambda idw: np.einsum('i,ij,ji->i', coeffs, evecs[:, idw, :], evecs[:, idw, :].T, out=occps, optimize=True)
    else:
        evecs = evecs.reshape(dwn, dup, nev)
        if coeffs is None:
            contract_up = lambda iup: np.einsum('ji,ij->i', evecs[:, iup, :], evecs[:, iup, :].T, out=occps, optimize=True)
            contract_dw = lambda idw: np.einsum('ji,ij->i', evecs[idw, :, :], evecs[idw, :, :].T, out=occps, optimize=True)
        else:
            contract_up = lambda iup: np.einsum('i,ji,ij->i', coeffs, evecs[:, iup, :], evecs[:, iup, :].T, out=occps, optimize=True)
            contract_dw = lambda idw: np.einsum('i,ji,ij->i', coeffs, evecs[idw, :, :], evecs[idw, :, :].T, out=occps, optimize=True)
    for iup in range(dup):
        sup = states_up[iup]
        occps = contract_up(iup)
        for k in range(n):
            nup[k, :] += n_op(sup, k) * occps
    for idw in range(dwn):
        sdw = states_dw[idw]
        occps = contract_dw(idw)
        for k in range(n):
            ndw[k, :] += n_op(sdw, k) * occps
    return (nup, ndw)

def _get_evecs_occupation_mpi(evecs, states_up, states_dw, n, comm, coeffs=None):
    from mpi4py import MPI
    if states_dw.size % comm.size != 0:
        raise ValueError('# of MPI processes must be a divisor of hilbert down space.')
    dwn_local = states_dw.size // comm.size
    nup_local, ndw_local = _get_evecs_occupation(evecs, states_up, states_dw[comm.rank * dwn_local:(comm.rank + 1) * dwn_local], n, coeffs)
    nup = np.empty_like(nup_local)
    ndw = np.empty_like(ndw_local)
    comm.Allreduce([nup_local, nup_local.size], [nup, nup.size], op=MPI.SUM)
    comm.Allreduce([ndw_local, ndw_local.size], [ndw, ndw.size], op=MPI.SUM)
    return (nup, ndw)
