from typing import ValuesView
import numpy as np
from numba import njit
from scipy.special import binom
from edpyt.shared import unsiged_dt

class OutOfHilbertError(ValueError):
    pass

@njit('void(uint32[:])')
def permutations(states):
    x = states[0]
    for i in range(1, states.size):
        u = x & -x
        v = u + x
        x = v + (unsiged_dt((v ^ x) / u) >> 2)
        states[i] = x

def get_sector_dim(n, nup, ndw):
    return int(binom(n, nup) * binom(n, ndw))

def generate_states(n, p):
    num_states = int(binom(n, p))
    states = np.zeros(num_states, dtype=unsiged_dt)
    initial = unsiged_dt((1 << p) - 1)
    states[0] = initial
    permutations(states)
    return states

def get_cdg_sector(n, nup, ndw, ispin):
    if ispin == 0:
        nupJ = nup + 1
        ndwJ = ndw
        if nupJ > n:
            raise OutOfHilbertError(f'Out of hilbert.')
    elif ispin == 1:
        nupJ = nup
        ndwJ = ndw + 1
        if ndwJ > n:
            raise OutOfHilbertError(f'Out of hilbert.')
    else:
        raise RuntimeError(f'Invalid spin index {ispin}. Use 0 for up and 1 for down')
    return (nupJ, ndwJ)

def get_c_sector(nup, ndw, ispin):
    if ispin == 0:
        nupJ = nup - 1
        ndwJ = ndw
        if nupJ < 0:
            raise OutOfHilbertError(f'Out of hilbert.')
    elif ispin == 1:
        nupJ = nup
        ndwJ = ndw - 1
        if ndwJ < 0:
            raise OutOfHilbertError(f'Out of hilbert.')
    else:
        raise RuntimeError(f'Invalid spin index {ispin}. Use 0 for up and 1 for down')
    return (nupJ, ndwJ)
