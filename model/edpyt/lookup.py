import numpy as np
from numba import njit
from edpyt.shared import unsiged_dt

@njit()
def count_bits(s, n):
    bits = 0
    for i in range(n):
        bits += s >> i & unsiged_dt(1)
    return bits

def binrep(i, n, format='array'):
    str_repr = np.binary_repr(i, n)
    if format in ['string', 'str']:
        return str_repr[::-1]
    arr_repr = np.fromiter(str_repr, dtype='S1').astype(unsiged_dt)
    if format in ['array', 'arr']:
        return arr_repr[::-1]
    else:
        raise ValueError('Invalid format type {}.'.format(format))

def intrep(arr_repr):
    if isinstance(arr_repr, str):
        return np.uint32(int(arr_repr[::-1], base=2))
    i = unsiged_dt(0)
    for shift, j in enumerate(arr_repr):
        if j:
            i += unsiged_dt(1) << shift
    return i

@njit(['UniTuple(int64,2)(int64,int64,int64)', 'UniTuple(int32,2)(int32,int32,int32)'])
def get_spin_indices(i, dup, dwn):
    iup = i % dup
    idw = i // dup
    return (iup, idw)

@njit(['int64(int64,int64,int64)', 'int32(int32,int32,int32)'])
def get_state_index(iup, idw, dup):
    return iup + idw * dup

@njit(['int64(uint32[:],uint32)', 'int32(uint32[:],uint32)'])
def binsearch(a, s):
    lo = -1
    hi = a.size
    while hi - lo > 1:
        m = lo + hi >> 1
        if a[m] <= s:
            lo = m
        else:
            hi = m
    if lo == -1 or a[lo] != s:
        return -1
    else:
        return lo

def get_num_spins(isct, n):
    return np.unravel_index(isct, (n + 1, n + 1))

def get_sector_index(n, nup, ndw):
    return np.ravel_multi_index((nup, ndw), (n + 1, n + 1))
