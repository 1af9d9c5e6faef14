import json, types
import numpy as np
out={}
mods={'numpy':np,'numpy.linalg':np.linalg,'numpy.random':np.random,'numpy.fft':np.fft,'numpy.testing':np.testing}
for k,m in mods.items(): out[k]=sorted(dir(m))
attrs=set()
import collections, fractions, logging, pathlib, itertools, functools, io, threading
for t in (str,bytes,list,dict,set,frozenset,tuple,int,float,complex,bool,type,object,Exception,types.FunctionType,types.MethodType,types.GeneratorType,types.ModuleType,
          np.ndarray,np.float64,np.complex128,np.int64,np.dtype,np.random.RandomState,np.random.Generator,np.ufunc,np.flatiter,np.nditer,type(np.zeros(1).flags),np.matrix,
          collections.OrderedDict,collections.defaultdict,collections.Counter,collections.deque,logging.Logger,pathlib.Path,io.TextIOWrapper,functools.partial,slice,range,memoryview,property,np.finfo,np.iinfo, np.poly1d, np.lib.index_tricks.IndexExpression, np.errstate, threading.Thread):
    attrs|=set(dir(t))
from numpy.random import SeedSequence
attrs|=set(dir(SeedSequence))|set(dir(np.random.PCG64))
attrs|={'eps','min','max','resolution','tiny','bits'}
try:
    from mpi4py import MPI
    for t in (MPI.Comm,MPI.Intracomm,MPI.Request,MPI.Status,MPI.Op,MPI.Datatype,MPI.Win): attrs|=set(dir(t))
    out['mpi4py.MPI']=sorted(dir(MPI))
except Exception as e: print('mpi',e)
try:
    import scipy.sparse as sp
    for t in (sp.csr_matrix,sp.csc_matrix,sp.coo_matrix,sp.dia_matrix,sp.lil_matrix): attrs|=set(dir(t))
    out['scipy.sparse']=sorted(dir(sp))
except Exception as e: print('sp',e)
for nm in ('scipy.linalg','scipy.special','scipy.sparse.linalg','cffi','scipy.linalg.blas','scipy.linalg.lapack','math','cmath','itertools','functools','operator','collections','os','sys','warnings','time','pathlib','ctypes','mpmath'):
    try:
        m=__import__(nm,fromlist=['x']); out[nm]=sorted(dir(m)); attrs|=set(dir(m))
    except Exception as e: print(nm,e)
for m in mods.values(): attrs|=set(dir(m))
if 'cffi' in out:
    import cffi
    attrs|=set(dir(cffi.FFI))
out['*attributes']=sorted(attrs)
json.dump(out,open('/verif/engine/data/external.json','w'),indent=0)
print({k:len(v) for k,v in out.items()})
