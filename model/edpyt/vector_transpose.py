import numpy as np
from mpi4py import MPI

def collect_dw(a, comm=None):
    m, n = a.shape
    if comm is None:
        comm = MPI.COMM_WORLD
    size = comm.Get_size()
    assert m * size == n, 'Non-equal # of up and down spins,'
    batch = n // size
    chunk = batch * m
    b = np.empty(a.T.shape, a.dtype)
    for p in range(size):
        b[p * batch:(p + 1) * batch, :] = a[:, p * batch:(p + 1) * batch]
    comm.Alltoall([b, chunk], [a, chunk])
    return a.reshape(n, m)

def collect_up(a, comm=None):
    m, n = a.shape
    if comm is None:
        comm = MPI.COMM_WORLD
    size = comm.Get_size()
    assert m == n * size, 'Non-equal # of up and down spins,'
    batch = m // size
    chunk = batch * n
    b = np.empty(a.shape, a.dtype)
    comm.Alltoall([a, chunk], [b, chunk])
    b.shape = (size, -1)
    a.shape = (n, m)
    for p in range(batch):
        a[p, :] = b[:, p * n:(p + 1) * n].flat
    return a
