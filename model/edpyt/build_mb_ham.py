import numpy as np
from warnings import warn
from numba import njit, prange
from numba.types import float64, uint32, Array
from edpyt.ham_hopping import build_ham_hopping
from edpyt.ham_non_local import build_ham_non_local
from edpyt.ham_local import build_ham_local
from edpyt.shared import params, unsiged_dt
'\nConventions:\n    n : number of levels per spin\n    nup : number of up spins\n    ndw : number of dw spins\n    d : sector size\n    dup : sector number of up spin states (all possible permutations of nup in n)\n    dwn : sectot number of down spin states (all possible permutations of ndw in n)\n\n'

def build_mb_ham(H, V, sct, comm=None):
    n = H.shape[-1]
    H = np.broadcast_to(H, (2, n, n))
    if isinstance(V, np.ndarray):
        U = V
        Jx = None
        Jp = None
    elif isinstance(V, dict):
        U = V.get('U', None)
        Jx = V.get('Jx', None)
        Jp = V.get('Jp', None)
    else:
        raise TypeError('V must be an array or a dictionary of arrays.')
    operators = list()
    operators.append(build_ham_local(H, U, sct, hfmode=params['hfmode'], mu=params['mu'], z=params['z']))
    if isinstance(sct.states, np.ndarray):
        warn('Hopping with N symmetry not implmented. Discarding off-diagonal elements.')
    elif len(U) > 1:
        operators.extend(build_ham_hopping(H, sct))
    if Jx is not None or Jp is not None:
        operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
    return operators

@njit(float64(Array(float64, 1, 'C', readonly=False), uint32))
def sum_diags_contrib(diags, s):
    n = diags.size
    res = 0.0
    for i in prange(n):
        if s >> i & unsiged_dt(1):
            res += diags[i]
    return res

@njit((Array(float64, 2, 'C', readonly=False), Array(float64, 1, 'C', readonly=False), uint32[:], uint32[:], float64[:], float64))
def add_onsites(ener_diags, int_diags, states_up, states_dw, vec_diag, hfshift):
    dup = states_up.size
    dwn = states_dw.size
    vec_diag_up = np.empty(dup)
    for iup in prange(dup):
        sup = states_up[iup]
        vec_diag_up[iup] = sum_diags_contrib(ener_diags[0], sup)
    for idw in prange(dwn):
        sdw = states_dw[idw]
        onsite_energy_dw = sum_diags_contrib(ener_diags[1], sdw)
        for iup in range(dup):
            sup = states_up[iup]
            i = iup + idw * dup
            onsite_int = sum_diags_contrib(int_diags, sup & sdw)
            onsite_energy = vec_diag_up[iup] + onsite_energy_dw
            vec_diag[i] = onsite_energy + onsite_int + hfshift
