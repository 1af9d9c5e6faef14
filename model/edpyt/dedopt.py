import numpy as np
from scipy import optimize as opt
from mpi4py import MPI
comm = MPI.COMM_WORLD
x0 = 0.3
x = np.ones(10, complex)
sendbuf = x
recvbuf = np.empty_like(x)

def f(x0, c):
    comm.Reduce([sendbuf, MPI.COMPLEX16], [recvbuf, MPI.COMPLEX16], op=MPI.SUM)
    eps = None
    if comm.rank == 0:
        eps = (recvbuf - x0).sum().real
    eps = comm.bcast(eps, root=0)
    return eps
res = opt.root(f, 0.0, 1.0, options=dict(xtol=0.001, maxfev=10))
print(comm.rank, res.x[0], res)
