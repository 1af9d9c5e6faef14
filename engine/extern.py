"""Semantics of the standard library and numpy calls the analysed code makes."""
import builtins
from .terms import *
from .terms import REBUILD
from .values import *
from .arrays import *

BUILTINS = set(dir(builtins)) | {'__addr__', '__cstruct__'}

IGNORED = {'warn', 'print', 'warnings.warn', 'time.sleep', 'gc.collect', 'sys.stdout.flush'}

PREFIXES = ('builtins.', 'numpy.', 'math.', 'cmath.', 'scipy.special.', 'scipy.linalg.', 'numpy.linalg.',
            'itertools.', 'functools.', 'operator.', 'warnings.', 'collections.', 'scipy.', 'numba.', 'cython.parallel.')
RENAME = {'absolute': 'abs', 'fabs': 'abs', 'conjugate': 'conj', 'multiply': 'multiply', 'numpy.float64': 'float64',
          'prange': 'range', 'numpy.sum': 'sum', 'amax': 'max', 'amin': 'min', 'asanyarray': 'asarray',
          'ascontiguousarray': 'ascontiguousarray', 'linalg.norm': 'norm', 'linalg.eigh': 'eigh', 'linalg.inv': 'inv',
          'float': 'float64', 'int': 'int', 'comb': 'binom', 'true_divide': 'divide', 'row_stack': 'vstack',
          'matmul': 'dot', 'inner': 'dot', 'trapezoid': 'trapz'}

_canon = {}


def canon(name):
    r = _canon.get(name)
    if r is None:
        r = name
        if r.startswith('builtins.'):
            r = r[9:]
        else:
            for p in PREFIXES:
                if r.startswith(p):
                    r = r[len(p):]
                    break
        r = RENAME.get(r, r)
        _canon[name] = r
    return r


ARRAY_ATTRS = {'T', 'size', 'shape', 'ndim', 'real', 'imag', 'flat', 'dtype'}

PURE_METHODS = {'sum', 'mean', 'min', 'max', 'any', 'all', 'copy', 'conj', 'conjugate', 'transpose', 'reshape', 'dot',
                'ravel', 'flatten', 'astype', 'diagonal', 'argmin', 'argmax', 'argsort', 'nonzero', 'squeeze', 'round',
                'cumsum', 'prod', 'trace', 'tolist', 'item', 'repeat', 'take', 'clip', 'swapaxes', 'view', 'std', 'var',
                'keys', 'items', 'values', 'get', 'index', 'count', 'lower', 'upper', 'strip', 'split', 'join', 'format',
                'startswith', 'endswith', 'replace', 'union', 'intersection', 'difference', 'issubset', 'encode',
                'decode', 'searchsorted', 'outer', 'tocsr', 'todense', 'toarray', 'isdigit', 'zfill', 'title', 'rstrip',
                'lstrip', 'fromiter', 'tobytes', 'Get_size', 'Get_rank'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'update', 'fill', 'clear', 'setdefault',
            'resize', 'setflags', 'popitem', 'add', 'discard', 'put', 'itemset', 'partition'}
METHODS = PURE_METHODS
# evaluations of functions and Green's functions: asking twice, or in another order,
# changes nothing
QUERIES = {'Sigma', 'Delta', 'Hybrid', 'hilbert', 'Weiss', 'free', 'gf', 'gf2', 'gf2e', 'gf2h', 'derivative', 'evaluate',
           'y', 'approximate', 'exact', 'nF', 'G', 'delta'}


def T(t):
    if t.op == 'app' and t.args[0] == 'T':
        return t.args[1]
    if t.op == 'poly':
        r = ZERO
        for m, c in t.args[0]:
            x = const(c)
            for a, e in m:
                x = mul(x, powi(T(a), e)) if not (a.op in ('par',)) else mul(x, mkpoly({((a, e),): Fraction(1)}))
            r = add(r, x)
        return r
    if is_bool_atom(t) or t.op in ('I', 'sgn') or is_int(t):
        return t
    return mk('app', 'T', t)


def linear(name, t):
    """conj/real/imag distribute over sums and pull rational factors out"""
    if t.op != 'poly':
        return _lin1(name, t)
    r = ZERO
    for m, c in t.args[0]:
        x = mkpoly({m: Fraction(1)})
        r = add(r, scale(_lin1(name, x), c))
    return r


PARTS.append(lambda t: (linear('real', t), linear('imag', t)))


def real_factor(a):
    return is_bool_atom(a) or a.op in ('sgn', 'abs') or is_int(a) or a.op == 'app' and a.args[0] in ('abs', 'real', 'imag', 'pi') \
        or a.op == 'sym' and a.args[0] in ('pi', 'beta', 'mu', 'eta')


def _lin1(name, t):
    its = pitems(t)
    m, c = its[0] if its else ((), Fraction(0))
    reals = [(a, e) for a, e in m if real_factor(a)]
    rest = [(a, e) for a, e in m if not real_factor(a)]
    f = mkpoly({tuple(reals): Fraction(1)}) if reals else ONE
    if not rest:
        return ZERO if name == 'imag' else f if its else ZERO
    if any(a.op == 'I' for a, e in rest):
        rest2 = mkpoly({tuple(x for x in rest if x[0].op != 'I'): Fraction(1)})
        if name == 'conj':
            return mul(f, neg(mul(IMAG, linear('conj', rest2))))
        if name == 'real':
            return mul(f, neg(linear('imag', rest2)))
        return mul(f, linear('real', rest2))
    x = mkpoly({tuple(rest): Fraction(1)})
    if name == 'conj':
        r = ONE
        for a, e in rest:
            if a.op == 'app' and a.args[0] == 'conj':
                y = a.args[1]
            else:
                y = mk('app', 'conj', a)
            r = mul(r, powi(y, e)) if a.op != 'par' else mul(r, mkpoly({((mk('par', linear('conj', a.args[0])), e),): Fraction(1)}))
        return mul(f, r)
    cj = [(a, e) for a, e in rest if a.op == 'app' and a.args[0] == 'conj' and e == 1]
    if cj:
        a, b = cj[0][0].args[1], mkpoly({tuple(y for y in rest if y[0] is not cj[0][0]): Fraction(1)})
        ra, ia = linear('real', a), linear('imag', a)
        if b is ONE:
            return mul(f, ra if name == 'real' else neg(ia))
        rb, ib = linear('real', b), linear('imag', b)
        if name == 'real':
            return mul(f, add(mul(ra, rb), mul(ia, ib)))
        return mul(f, sub(mul(ra, ib), mul(ia, rb)))
    if x.op == 'app' and x.args[0] in ('real', 'imag'):
        return mul(f, x if name == 'real' else ZERO)
    return mul(f, mk('app', name, x))


def bilinear(name, a, b):
    r = ZERO
    for m1, c1 in pitems(a):
        for m2, c2 in pitems(b):
            k = c1 * c2
            sc = ONE
            x1, s1 = _pull(m1)
            x2, s2 = _pull(m2)
            if x1 is ONE or x2 is ONE:
                r = add(r, scale(prod(x1, x2, s1, s2), k))
            else:
                r = add(r, scale(prod(s1, s2, mk('app', name, x1, x2)), k))
    return r


def _pull(m):
    sc, rest = [], []
    for a, e in m:
        (sc if a.op in ('I', 'sgn') or is_bool_atom(a) else rest).append((a, e))
    return (mkpoly({tuple(rest): Fraction(1)}) if rest else ONE), (mkpoly({tuple(sc): Fraction(1)}) if sc else ONE)


def absval(t):
    v = const_value(t)
    if v is not None:
        return const(abs(v))
    its = pitems(t)
    if len(its) == 1:
        m, c = its[0]
        r = const(abs(c))
        for a, e in m:
            if is_bool_atom(a) or a.op == 'abs' or a.op == 'app' and a.args[0] in ('sqrt', 'exp', 'len'):
                r = mul(r, powi(a, e))
            elif a.op in ('sgn', 'I'):
                pass
            else:
                r = mul(r, powi(mk('abs', a), e))
        return r
    lead = min(its, key=lambda mc: (tuple((a.dig, e) for a, e in mc[0])))
    if lead[1] < 0:
        t = neg(t)
    return mk('abs', t)


def sqrt(t):
    v = const_value(t)
    if v is not None and v >= 0:
        from math import isqrt
        a, b = isqrt(v.numerator), isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return const(Fraction(a, b))
    return mk('app', 'sqrt', t)


def expf(t):
    if t is ZERO:
        return ONE
    return mk('app', 'exp', t)


def minmax(name, ts):
    out = []
    for t in ts:
        if t.op == name:
            out += list(t.args[0])
        else:
            out.append(t)
    out = sorted(set(out), key=lambda x: x.dig)
    cs = [x for x in out if const_value(x) is not None]
    if len(cs) > 1:
        v = (min if name == 'min' else max)(const_value(x) for x in cs)
        out = [x for x in out if const_value(x) is None] + [const(v)]
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.dig)
    return mk(name, tuple(out))


_APPS = {'dot': lambda a, b: bilinear('dot', a, b), 'T': lambda t: T(t), 'conj': lambda t: linear('conj', t),
         'real': lambda t: linear('real', t), 'imag': lambda t: linear('imag', t), 'sum': lambda t: sumt1(t),
         'exp': lambda t: expf(t), 'sqrt': lambda t: sqrt(t)}


def _reb_app(t, f):
    n = t.args[0]
    args = tuple(f(x) if isinstance(x, Term) else x for x in t.args[1:])
    if args == t.args[1:]:
        return t
    h = _APPS.get(n)
    if h is not None and len(args) == (2 if n == 'dot' else 1):
        return h(*args)
    return mk('app', n, *args)


def sumt1(t):
    return mk('app', 'sum', t) if t is ONE else sumt(t)


REBUILD['app'] = _reb_app
REBUILD['abs'] = lambda t, f: absval(f(t.args[0]))
REBUILD['max'] = lambda t, f: minmax('max', [f(x) for x in t.args[0]])
REBUILD['min'] = lambda t, f: minmax('min', [f(x) for x in t.args[0]])


def _axis(ip, kw):
    a = kw.get('axis')
    return a


def reduce_list(ip, v):
    """sum of a list value or None"""
    if isinstance(v, (Tup, Ref, Iter, Rng)):
        if isinstance(v, Ref) and ip.heap[v.id].kind not in ('list',):
            return None
        s = ip.segments(v)
        if s[0] == 'items':
            return total(*[ip.termof(x) for x in s[1]])
        r = ZERO
        for b, g, e, p in s[1]:
            x = mul(g, ip.termof(e))
            r = add(r, sum_over(b, x) if b else x)
        return r
    if isinstance(v, Term) and v.op == 'list':
        s = ip.segments(v)
        if s[0] == 'items':
            return total(*[ip.termof(x) for x in s[1]])
        r = ZERO
        for b, g, e, p in s[1]:
            x = mul(g, ip.termof(e))
            r = add(r, sum_over(b, x) if b else x)
        return r
    return None


def shape_term(ip, v):
    its = None
    if isinstance(v, Tup):
        its = list(v.items)
    elif isinstance(v, Ref) and ip.heap[v.id].kind == 'list':
        its = ip.const_items(v)
    if its is not None:
        return mk('tup', *[ip.termof(x) for x in its])
    t = ip.termof(v)
    if t.op == 'tup':
        return t
    if is_int(t) or t.op != 'attr' or t.args[1] != 'shape':
        if t.op == 'attr' and t.args[1] == 'shape':
            return t
        return mk('tup', t)
    return t


def dtype_term(ip, v):
    if v is None:
        return NONE
    t = ip.termof(v)
    if t.op == 'ref' and t.args[0] in ('float64', 'double', 'float_'):
        return NONE
    if t.op == 'ref':
        n = t.args[0]
        n = {'complex': 'complex128', 'cdouble': 'complex128', 'int': 'int64', 'int_': 'int64', 'uint': 'uint64'}.get(n, n)
        if n.endswith('unsigned_dtype'):
            n = 'unsigned_dtype'
        return mk('ref', n)
    if t.op == 'str':
        return mk('ref', {'complex': 'complex128', 'float': 'float64', 'int': 'int64'}.get(t.args[0], t.args[0])) \
            if t.args[0] not in ('float', 'float64') else NONE
    return t


def creation(ip, fill, shape, dtype, args=()):
    t = mk('full', shape, fill, dtype)
    return ip.new('arr', t, loc=ip.loc())


def blas_name(f):
    """name of the BLAS routine a function value is, or None"""
    if f.op == 'app' and f.args and isinstance(f.args[0], str) and f.args[0].split('.')[-1] == 'get_blas_funcs' \
            and len(f.args) > 1 and isinstance(f.args[1], Term) and f.args[1].op == 'str':
        return f.args[1].args[0]
    return None


def blas(ip, which, args, kw):
    """level one routines that work on their arguments; None when the call is not the plain one"""
    w = which[1:] if which[:1] in 'dszc' and which[1:] in ('axpy', 'scal', 'swap', 'copy', 'dot', 'nrm2') else which
    args, kw = list(args), dict(kw)
    names = {'axpy': ['x', 'y', 'n', 'a'], 'scal': ['a', 'x', 'n'], 'swap': ['x', 'y', 'n'], 'copy': ['x', 'y', 'n'],
             'dot': ['x', 'y', 'n'], 'nrm2': ['x', 'n']}.get(w)
    if names is None:
        return None
    if len(args) > len(names) or set(kw) - set(names):
        return None
    v = dict(zip(names, args))
    v.update(kw)
    if 'x' not in v or 'y' in names and 'y' not in v:
        return None
    if 'n' in v:
        n = ip.termof(v['n'])
        if not any(n is ip.length(v[k]) for k in ('x', 'y') if k in v) and not (
                n.op == 'len' and not (n.args[0].op == 'app' and n.args[0].args[0] in ('norm', 'dot'))):
            return None
    x = ip.termof(v['x'])
    if w == 'axpy':
        ip.write(v['y'], (), '+=', mul(ip.termof(v['a']), x) if 'a' in v else x)
        return v['y']
    if w == 'scal':
        if 'a' not in v:
            return None
        ip.write(v['x'], (), '*=', ip.termof(v['a']))
        return v['x']
    if w == 'copy':
        ip.write(v['y'], (), '=', x)
        return v['y']
    if w == 'swap':
        y = ip.termof(v['y'])
        ip.write(v['x'], (), '=', y)
        ip.write(v['y'], (), '=', x)
        return NONE
    if w == 'dot':
        return call(ip, 'numpy.dot', [v['x'], v['y']], {})
    return call(ip, 'numpy.linalg.norm', [v['x']], {})


def call(ip, name, args, kw):
    from .interp import Star, Unsupported
    n = canon(name)
    a = args
    star = any(isinstance(x, Star) for x in args) or '**' in kw
    f = TABLE.get(n)
    if f is not None and not star:
        r = f(ip, a, kw)
        if r is not NotImplemented:
            return r
    if n in IGNORED:
        return NONE
    if n in ('zip', 'product') and star and len(args) == 1:
        return mk('app', n, *ip.argterms(args, kw))
    if n.startswith('mpi4py') or n.startswith('MPI.'):
        t = mk('app', n, *ip.argterms(args, kw))
        return t
    if name.startswith('scipy.linalg.blas.') and not star:
        r = blas(ip, n.split('.')[-1], args, kw)
        if r is not None:
            return r
    out = kw.get('out')
    if out is not None and out is not NONE and not star:
        kw2 = {k: v for k, v in kw.items() if k != 'out'}
        r = call(ip, name, args, kw2)
        ip.write(out, (), '=', ip.termof(r))
        return out
    if '.lib.' in n and not star:
        # foreign function: recorded in order
        t = mk('app', n, *ip.argterms(args, kw))
        ip.log(ip.calls, 'call', (), t)
        for k, x in enumerate(args):
            if isinstance(x, Ref) and ip.heap[x.id].kind in ('arr', 'ext'):
                ip.write(x, (), '=', mk('recv', t, const(k)))
        return t
    # calls of functions stored in closures etc.
    return mk('app', n, *ip.argterms(args, kw))


def T1(fn):
    def h(ip, a, kw):
        if len(a) != 1 or set(kw) - {'out', 'dtype'}:
            return NotImplemented
        r = fn(ip.termof(a[0]))
        if 'out' in kw and kw['out'] is not NONE:
            ip.write(kw['out'], (), '=', r)
            return kw['out']
        return r
    return h


def T2(fn):
    def h(ip, a, kw):
        if len(a) == 3 and not kw:
            kw = {'out': a[2]}
            a = a[:2]
        if len(a) != 2 or set(kw) - {'out', 'dtype'}:
            return NotImplemented
        r = fn(ip.termof(a[0]), ip.termof(a[1]))
        if 'out' in kw and kw['out'] is not NONE:
            ip.write(kw['out'], (), '=', r)
            return kw['out']
        return r
    return h


def t_range(ip, a, kw):
    ts = [ip.termof(x) for x in a]
    if len(ts) == 1:
        return Rng(ZERO, ONE, ts[0])
    lo, hi = ts[0], ts[1]
    st = ts[2] if len(ts) > 2 else ONE
    s = const_value(st)
    if s == 1:
        return Rng(lo, ONE, sub(hi, lo))
    if s == -1:
        return Rng(lo, const(-1), sub(lo, hi))
    l, h = const_value(lo), const_value(hi)
    if s and l is not None and h is not None:
        return Rng(lo, st, const(max(0, len(range(int(l), int(h), int(s))))))
    return Rng(lo, st, mk('nrange', lo, hi, st))


def t_len(ip, a, kw):
    return ip.length(a[0])


def t_sum(ip, a, kw):
    if not a:
        return NotImplemented
    extra = [x for x in a[1:]]
    axis = kw.get('axis', extra[0] if extra else None)
    if axis is not None and axis is not NONE:
        ax = ip.termof(axis)
        if ax is ZERO or ax is NONE:
            r = reduce_list(ip, a[0])
            if r is not None and not (set(kw) - {'axis'}):
                return r
        if set(kw) - {'axis'}:
            return NotImplemented
        return mk('app', 'sumax', ip.termof(a[0]), ax)
    if set(kw) - {'axis', 'start'}:
        return NotImplemented
    r = reduce_list(ip, a[0])
    if r is not None:
        return r
    return sumt(ip.termof(a[0]))


def sumt(t):
    """sum over all elements"""
    r = ZERO
    for m, c in pitems(t):
        if m == ():
            r = add(r, scale(mk('app', 'sum', ONE), c))
            continue
        x, s = _pull(m)
        if x.op == 'tab':
            vs, p = open_(x.args[2], x.args[0], x.args[1])
            y = sum_over(list(zip(vs, p[0])), p[1])
        else:
            y = mk('app', 'sum', x)
        r = add(r, scale(mul(s, y), c))
    return r


def t_identity(ip, a, kw):
    """np.array / asarray / copy"""
    v = a[0]
    if set(kw) - {'dtype', 'copy', 'order', 'ndmin'}:
        return NotImplemented
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    t = ip.termof(v)
    if t.op == 'tup':
        t = mk('list', *[mk('it', x) for x in t.args])
    d = dtype_term(ip, dt)
    if d is not NONE and not (t.op in ('sym', 'attr') and False):
        t = cast(d, t)
    return ip.new('arr', t, loc=ip.loc())


def t_asarray(ip, a, kw):
    if set(kw) - {'dtype', 'order'}:
        return NotImplemented
    v = a[0]
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    if isinstance(v, Ref) and ip.heap[v.id].kind == 'arr' and dt is None:
        return v
    if isinstance(v, (Term, Sub)) and (dt is None or dtype_term(ip, dt) is NONE):
        return v
    return t_identity(ip, a[:1], {'dtype': dt} if dt is not None else {})


def cast(d, t):
    if d.op == 'ref' and d.args[0] in INTS and is_int(t):
        return t
    if d is NONE:
        return t
    return mk('app', 'cast', d, t)


INTS = {'int64', 'int32', 'uint32', 'uint64', 'unsigned_dtype', 'intp', 'int8', 'uint8', 'int16', 'uint16'}


def t_zeros(fill):
    def h(ip, a, kw):
        if set(kw) - {'shape', 'dtype', 'order'}:
            return NotImplemented
        sh = a[0] if a else kw.get('shape')
        dt = kw.get('dtype', a[1] if len(a) > 1 else None)
        return creation(ip, fill, shape_term(ip, sh), dtype_term(ip, dt))
    return h


def t_full(ip, a, kw):
    if set(kw) - {'dtype'} or len(a) < 2:
        return NotImplemented
    return creation(ip, ip.termof(a[1]), shape_term(ip, a[0]), dtype_term(ip, kw.get('dtype')))


def t_like(fill):
    def h(ip, a, kw):
        if set(kw) - {'dtype', 'shape'}:
            return NotImplemented
        t = ip.termof(a[0])
        sh = shape_term(ip, kw['shape']) if 'shape' in kw else shape_of(t)
        if t.op in ('full',):
            dt = t.args[2]
        else:
            dt = mk('attr', t, 'dtype')
        if kw.get('dtype') is not None:
            dt = dtype_term(ip, kw['dtype'])
        elif len(a) > 1:
            dt = dtype_term(ip, a[1])
        return creation(ip, fill, sh, dt)
    return h


def t_cast_int(ip, a, kw):
    if not a:
        return ZERO
    t = ip.termof(a[0])
    if is_int(t):
        return t
    if t.op == 'app' and t.args[0] in ('binom', 'floor', 'ceil', 'round', 'edpyt.sector.binom'):
        return t
    if len(a) > 1:
        return mk('app', 'int', t, ip.termof(a[1]))
    its = pitems(t)
    if all(c.denominator == 1 and all(e > 0 and (is_int(x) or x.op == 'app' and x.args[0] in ('binom', 'factorial')) for x, e in m) for m, c in its):
        return t
    return mk('trunc', t)


def t_float(ip, a, kw):
    return ip.termof(a[0]) if a else ZERO


def t_complex(ip, a, kw):
    if len(a) == 2:
        return add(ip.termof(a[0]), mul(IMAG, ip.termof(a[1])))
    return ip.termof(a[0])


def t_dot(ip, a, kw):
    if len(a) == 3:
        kw = {'out': a[2]}
        a = a[:2]
    if len(a) != 2 or set(kw) - {'out'}:
        return NotImplemented
    r = bilinear('dot', ip.termof(a[0]), ip.termof(a[1]))
    if kw.get('out') is not None and kw['out'] is not NONE:
        ip.write(kw['out'], (), '=', r)
        return kw['out']
    return r


def t_where(ip, a, kw):
    if len(a) == 3:
        c = ip.termof(a[0])
        return ite(truth(c), ip.termof(a[1]), ip.termof(a[2]))
    if len(a) == 1:
        return mk('app', 'nonzero', ip.termof(a[0]))
    return NotImplemented


def t_abs(t):
    return absval(t)


def t_minmax(name):
    def h(ip, a, kw):
        if len(a) >= 2 and not kw and not any(isinstance(x, Tup) for x in a):
            return minmax(name, [ip.termof(x) for x in a])
        if len(a) == 1 and not kw:
            its = ip.const_items(a[0])
            if its:
                return minmax(name, [ip.termof(x) for x in its])
            return mk('app', 'red' + name, ip.termof(a[0]))
        return NotImplemented
    return h


def t_iter(kind):
    def h(ip, a, kw):
        if kind == 'enumerate':
            ops = list(a)
            if 'start' in kw:
                ops.append(kw['start'])
            if len(ops) > 1:
                ops[1] = ip.termof(ops[1])
            return Iter('enumerate', ops)
        if kind == 'product':
            rep = kw.get('repeat')
            ops = list(a)
            if rep is not None:
                k = const_value(ip.termof(rep))
                if k is None:
                    return NotImplemented
                ops = ops * int(k)
            return Iter('product', ops)
        if kind in ('permutations', 'combinations'):
            ops = [a[0]]
            r = kw.get('r', a[1] if len(a) > 1 else None)
            if r is not None:
                ops.append(ip.termof(r))
            return Iter(kind, ops)
        if kind == 'ndindex':
            its = ip.const_items(a[0]) if len(a) == 1 else None
            if its is None and len(a) == 1 and isinstance(a[0], (Term, Sub)):
                t = ip.termof(a[0])
                if t.op == 'attr' and t.args[1] == 'shape':
                    return NotImplemented
            xs = its if its is not None else a
            ts = [ip.termof(x) for x in xs]
            if len(ts) == 1:
                return Iter('product', [Rng(ZERO, ONE, ts[0])])
            return Iter('ndindex', ts)
        return Iter(kind, list(a))
    return h


def t_tuple(ip, a, kw):
    if not a:
        return Tup([])
    its = ip.const_items(a[0])
    if its is not None:
        return Tup(its)
    if isinstance(a[0], (Iter, Ref, Rng)):
        s = ip.segments(a[0])
        if s[0] == 'items':
            return Tup(s[1])
    return ip.termof(a[0])


def t_list(ip, a, kw):
    if not a:
        return ip.list_of([])
    its = ip.const_items(a[0])
    if its is not None:
        return ip.list_of(its)
    if isinstance(a[0], (Term, Sub)):
        from .interp import DICTS
        t = ip.termof(a[0])
        if not (t.op in ('sym', 'attr') and t.args[-1] in DICTS):
            return ip.new('list', t)
    r = ip.new('list', mk('list'))
    ip.extend(r, a[0])
    return r


def t_sorted(ip, a, kw):
    its = ip.const_items(a[0]) if len(a) == 1 and not kw else None
    if its is not None and len(its) == 2:
        x, y = ip.termof(its[0]), ip.termof(its[1])
        if x.op not in ('str', 'tup', 'nt') and y.op not in ('str', 'tup', 'nt'):
            return Tup([minmax('min', [x, y]), minmax('max', [x, y])])
    return mk('app', 'sorted', *ip.argterms(a, kw))


def t_dict(ip, a, kw):
    if not a and not kw:
        return ip.new('dict', mk('dict'))
    if not a:
        r = ip.new('dict', mk('dict'))
        for k, v in kw.items():
            ip.log(ip.heap[r.id], '=', (mk('str', k),), v)
        return r
    if len(a) == 1 and isinstance(a[0], (Term, Sub)):
        return ip.new('dict', ip.termof(a[0]))
    return NotImplemented


def t_defaultdict(ip, a, kw):
    if not a:
        return ip.new('dict', mk('dict'))
    f = a[0]
    if isinstance(f, Ext) and canon(f.name) == 'list':
        d = mk('list')
    elif isinstance(f, Ext) and canon(f.name) in ('int', 'float64'):
        d = ZERO
    else:
        d = ip.termof(ip.call(f, [], {}))
    return ip.new('dict', mk('defaultdict', d))


def t_isinstance(ip, a, kw):
    v, c = a
    cl = ip.termof(c)
    if isinstance(v, (Tup,)):
        pass
    return mk('isinst', ip.termof(v), cl)


def t_hasattr(ip, a, kw):
    v = a[0]
    nm = ip.termof(a[1])
    if isinstance(v, Tup) and v.rec is not None and nm.op == 'str':
        return ONE if nm.args[0] in v.rec.fields else ZERO
    return mk('hasattr', ip.termof(v), nm)


def t_getattr(ip, a, kw):
    nm = ip.termof(a[1])
    if nm.op == 'str' and len(a) == 2:
        return ip.getattr(a[0], nm.args[0])
    return mk('app', 'getattr', *ip.argterms(a, kw))


def t_setattr(ip, a, kw):
    nm = ip.termof(a[1])
    if nm.op == 'str':
        ip.setattr(a[0], nm.args[0], a[2])
        return NONE
    return NotImplemented


def t_map(ip, a, kw):
    return Iter('map', list(a))


def t_any(name):
    def h(ip, a, kw):
        if len(a) != 1 or kw:
            return NotImplemented
        v = a[0]
        if isinstance(v, (Tup, Iter)) or isinstance(v, Ref) and ip.heap[v.id].kind == 'list':
            s = ip.segments(v)
            r = ZERO if name == 'any' else ONE
            if s[0] == 'items':
                for x in s[1]:
                    r = lor(r, ip.truth(x)) if name == 'any' else mul(r, ip.truth(x))
                return r
            from .interp import exists_over
            for b, g, e, p in s[1]:
                c = ip.truth(e)
                if name == 'any':
                    r = lor(r, exists_over(b, mul(g, c)))
                else:
                    r = mul(r, sub(ONE, exists_over(b, mul(g, sub(ONE, c)))))
            return r
        t = ip.termof(v)
        if name == 'all':
            return sub(ONE, mk('truth', mk('app', 'any', sub(ONE, t)))) if is_bool(t) else mk('truth', mk('app', 'all', t))
        return mk('truth', mk('app', 'any', t))
    return h


def t_next(ip, a, kw):
    return NotImplemented


def t_attrgetter(ip, a, kw):
    return mk('app', 'attrgetter', *ip.argterms(a, kw))


def t_partial(ip, a, kw):
    return mk('app', 'partial', *ip.argterms(a, kw))


def t_arange(ip, a, kw):
    dt = kw.get('dtype')
    if set(kw) - {'dtype'}:
        return NotImplemented
    r = t_range(ip, list(a[:3]), {})
    v = fresh('k')
    t = bind('tab', [v], (((ZERO, r.n),), add(r.lo, mul(r.step, v))))
    d = dtype_term(ip, dt)
    return ip.new('arr', cast(d, t) if d is not NONE and not (d.op == 'ref' and d.args[0] in INTS) else t)


def t_mult(ip, a, kw):
    return T2(mul)(ip, a, kw)


def t_id(ip, a, kw):
    return a[0]


def t_apply_over(name):
    return None


def t_reduce(ip, a, kw):
    f = a[0]
    its = ip.const_items(a[1])
    if its is None:
        return NotImplemented
    its = list(its)
    acc = a[2] if len(a) > 2 else its.pop(0)
    for x in its:
        acc = ip.call(f, [acc, x], {})
    return acc


def t_multiply_outer(ip, a, kw):
    return NotImplemented


def t_prod(ip, a, kw):
    if len(a) != 1 or kw:
        return NotImplemented
    v = a[0]
    if isinstance(v, (Tup, Ref)):
        its = ip.const_items(v)
        if its is not None:
            return prod(*[ip.termof(x) for x in its])
        if isinstance(v, Ref) and ip.heap[v.id].kind == 'arr':
            o = ip.heap[v.id]
            # small fixed-size scratch array
            if o.base.op == 'full' and o.base.args[0].op == 'tup' and len(o.base.args[0].args) == 1:
                n = const_value(o.base.args[0].args[0])
                if n is not None and n <= 8:
                    return prod(*[ip.read(v, (const(k),)) for k in range(int(n))])
    return mk('app', 'prod', ip.termof(v))


def t_addr(ip, a, kw):
    return a[0]


def t_cstruct(ip, a, kw):
    return ip.new('inst', mk('new', 'cstruct'), cls=_CS)


class _CSCls:
    name = 'cstruct'
    bases = ()
    qual = 'cstruct'
    methods = {}
    assigns = {}
    fields = []
    defaults = {}


from .program import Record
_CS = Record(None, 'cstruct', [], {})


def t_str(ip, a, kw):
    t = ip.termof(a[0]) if a else mk('str', '')
    return t if t.op == 'str' else mk('app', 'str', t)


def t_norm(ip, a, kw):
    if len(a) == 1 and not kw:
        return mk('app', 'norm', ip.termof(a[0]))
    return NotImplemented


def t_newobj(ip, a, kw):
    return NotImplemented


def t_set(ip, a, kw):
    if not a:
        return mk('app', 'set')
    return mk('app', 'set', ip.termof(a[0]))


def t_atleast(ip, a, kw):
    if len(a) == 1 and not kw:
        return mk('app', 'atleast_1d', ip.termof(a[0]))
    return NotImplemented


def t_slice(ip, a, kw):
    a = [x if x is NONE else ip.termof(x) for x in a]
    a = [NONE] + a if len(a) == 1 else a
    lo, hi, st = a + [NONE] * (3 - len(a))
    return mk('slice', NONE if lo is ZERO else lo, hi, NONE if st is ONE else st)


TABLE = {
    'slice': t_slice,
    'range': t_range, 'len': t_len, 'sum': t_sum, 'array': t_identity, 'asarray': t_asarray, 'copy': t_identity,
    'zeros': t_zeros(ZERO), 'empty': t_zeros(UNDEF), 'ones': t_zeros(ONE), 'full': t_full,
    'zeros_like': t_like(ZERO), 'empty_like': t_like(UNDEF), 'ones_like': t_like(ONE),
    'int': t_cast_int, 'int64': t_cast_int, 'int32': t_cast_int, 'uint32': t_cast_int, 'uint64': t_cast_int, 'unsigned_dtype': t_cast_int, 'edpyt.unsigned_dtype': t_cast_int, 'intp': t_cast_int,
    'float64': t_float, 'complex': t_complex, 'complex128': t_complex,
    'bool': lambda ip, a, kw: ip.truth(a[0]) if a else ZERO,
    'dot': t_dot, 'where': t_where, 'abs': T1(absval), 'sqrt': T1(sqrt), 'exp': T1(expf),
    'conj': T1(lambda t: linear('conj', t)), 'real': T1(lambda t: linear('real', t)), 'imag': T1(lambda t: linear('imag', t)),
    'reciprocal': T1(recip), 'square': T1(lambda t: mul(t, t)), 'negative': T1(neg),
    'multiply': T2(mul), 'add': T2(add), 'subtract': T2(sub), 'divide': T2(div),
    'mul': T2(mul), 'sub': T2(sub), 'truediv': T2(div), 'xor': T2(bxor), 'and_': T2(band), 'or_': T2(bor),
    'power': T2(lambda x, y: __import__('engine.interp', fromlist=['binop']).binop('Pow', x, y)),
    'pow': T2(lambda x, y: __import__('engine.interp', fromlist=['binop']).binop('Pow', x, y)),
    'bitwise_and': T2(band), 'bitwise_or': T2(bor), 'bitwise_xor': T2(bxor), 'left_shift': T2(shl), 'right_shift': T2(shr),
    'logical_not': T1(lambda t: sub(ONE, truth(t)) if is_bool(t) else mk('app', 'logical_not', t)),
    'floor_divide': T2(floordiv), 'mod': T2(mod), 'remainder': T2(mod),
    'divmod': lambda ip, a, kw: Tup([floordiv(ip.termof(a[0]), ip.termof(a[1])), mod(ip.termof(a[0]), ip.termof(a[1]))]),
    'transpose': lambda ip, a, kw: T(ip.termof(a[0])) if len(a) == 1 and not kw else NotImplemented,
    'min': t_minmax('min'), 'max': t_minmax('max'), 'minimum': T2(lambda x, y: minmax('min', [x, y])),
    'maximum': T2(lambda x, y: minmax('max', [x, y])),
    'enumerate': t_iter('enumerate'), 'zip': t_iter('zip'), 'product': t_iter('product'), 'ndindex': t_iter('ndindex'),
    'permutations': t_iter('permutations'), 'combinations': t_iter('combinations'), 'reversed': t_iter('reversed'),
    'filter': t_iter('filter'), 'map': t_map, 'iter': t_id,
    'tuple': t_tuple, 'list': t_list, 'dict': t_dict, 'defaultdict': t_defaultdict, 'OrderedDict': t_dict,
    'isinstance': t_isinstance, 'hasattr': t_hasattr, 'getattr': t_getattr, 'setattr': t_setattr,
    'any': t_any('any'), 'all': t_any('all'), 'arange': t_arange, 'prod': t_prod, 'reduce': t_reduce,
    '__addr__': t_addr, '__cstruct__': t_cstruct, 'str': t_str, 'norm': t_norm, 'sorted': t_sorted, 'set': t_set,
    'frozenset': t_set, 'atleast_1d': t_atleast,
    'shape': lambda ip, a, kw: array_attr(ip, a[0], 'shape'), 'size': lambda ip, a, kw: array_attr(ip, a[0], 'size'),
    'unravel_index': lambda ip, a, kw: NotImplemented,
    'isfinite': T1(lambda t: mk('truth', mk('app', 'isfinite', t))),
    'isnan': T1(lambda t: mk('truth', mk('app', 'isnan', t))),
}


def constant(name):
    n = canon(name)
    if n == 'pi':
        return mk('sym', 'pi')
    if n in ('inf', 'Inf', 'infty', 'PINF'):
        return mk('sym', 'inf')
    return None


NOTNONE = set()      # values looked up in a dictionary with get: taken to be true objects


def array_attr(ip, v, name):
    from .interp import length
    t = ip.termof(v)
    if name == 'T':
        if isinstance(v, (Ref, Term)) and not (isinstance(v, Ref) and ip.heap[v.id].kind == 'inst'):
            r = T(t)
            return r
        return T(t)
    if name == 'real':
        return linear('real', t) if not isinstance(v, (Ref, Sub)) and not _rooted(v) else View(v, 'real', linear('real', t))
    if name == 'imag':
        return linear('imag', t) if not isinstance(v, (Ref, Sub)) and not _rooted(v) else View(v, 'imag', linear('imag', t))
    if name == 'shape':
        sh = shape_of(t)
        if sh.op == 'tup':
            return Tup(sh.args)
        if sh.op == 'attr':
            b = sh.args[0]
            return mk('shape', b) if False else sh
        return sh
    if name == 'size':
        if t.op in ('full', 'addfill', 'tab', 'arr', 'list'):
            sh = shape_of(t)
            if sh.op == 'tup':
                return prod(*sh.args)
            if t.op == 'list':
                return length(t)
        if not (t.op in ('sym', 'attr') and any('comm' in str(z) for z in t.args)):
            return length(t)        # arrays of unknown rank: the number of elements of a vector
        return mk('attr', t, 'size')
    if name == 'ndim':
        sh = shape_of(t)
        if sh.op == 'tup':
            return const(len(sh.args))
        return mk('attr', t, 'ndim')
    if name == 'dtype':
        if t.op == 'full':
            return t.args[2] if t.args[2] is not NONE else mk('ref', 'float64')
        return mk('attr', t, 'dtype')
    if name == 'flat':
        return View(v, 'flat', mk('attr', t, 'flat'))
    return mk('attr', t, name)


def _rooted(v):
    return isinstance(v, Term) and v.op in ('sym', 'attr', 'index')


def View(v, name, term):
    return Sub(term, v, (mk('str', name),)) if not isinstance(v, Sub) else Sub(term, v.base, v.idx + (mk('str', name),))


def method(ip, recv, name, args, kw):
    from .interp import Star, Unsupported, same_value
    star = any(isinstance(x, Star) for x in args) or '**' in kw
    if isinstance(recv, Ext):
        return call(ip, recv.name + '.' + name, args, kw)
    if isinstance(recv, Mod):
        return call(ip, recv.name + '.' + name, args, kw)
    kind = None
    if isinstance(recv, Ref):
        kind = ip.heap[recv.id].kind
    if isinstance(recv, Tup) and name == '_replace' and recv.rec is not None:
        its = list(recv.items)
        for k, v in kw.items():
            its[recv.rec.fields.index(k)] = v
        return Tup(its, recv.rec)
    if isinstance(recv, Tup) and name == '_asdict':
        raise Unsupported('_asdict')
    # ---- mutating methods
    if name == 'append' and len(args) == 1 and not star:
        if isinstance(recv, Ref) and kind == 'list':
            ip.log(ip.heap[recv.id], 'app', (), args[0])
            return NONE
        if isinstance(recv, Sub):
            ip.log(ip.heap[ip.ref_of(recv.base).id], 'app', recv.idx, ip.termof(args[0]))
            return NONE
        if isinstance(recv, Term):
            ip.log(ip.heap[ip.ext(recv).id], 'app', (), args[0])
            return NONE
    if name == 'extend' and len(args) == 1 and isinstance(recv, Ref) and kind == 'list' and not star:
        ip.extend(recv, args[0])
        return NONE
    if name == 'fill' and len(args) == 1 and (kind == 'arr' or isinstance(recv, (Term, Sub))):
        ip.write(recv, (), '=', args[0])
        return NONE
    if name in ('sort', 'reverse') and (kind in ('arr', 'list') or isinstance(recv, (Term, Sub))):
        t = ip.termof(recv)
        if isinstance(recv, Ref) and kind == 'list':
            o = ip.heap[recv.id]
            its = ip.const_items(recv)
            if its is not None and name == 'reverse' and not ip.pc:
                o.log[:] = [Ent(x, ip) for x in reversed(its)]
                return NONE
        ip.write(recv, (), '=', mk('app', 'sorted' if name == 'sort' else 'reversed', t, *ip.argterms(args, kw)))
        return NONE
    if kind == 'dict' or isinstance(recv, (Term, Sub)) and name in ('items', 'keys', 'values'):
        if name in ('items', 'keys', 'values') and not args:
            return Iter(name, [recv])
    if kind == 'dict':
        o = ip.heap[recv.id]
        if name in ('get', 'pop', 'setdefault') and args and not star:
            k = ip.termof(args[0])
            for e in reversed(o.log):
                if e.op == '=' and not e.binders and e.guard is ONE and e.idx == (k,):
                    v = e.val
                    if name == 'pop':
                        ip.log(o, 'call', (k,), mk('str', 'del'))
                    return v
                break
            snap = ip.termof(recv)
            d = ip.termof(args[1]) if len(args) > 1 else NONE if name == 'get' else mk('missing')
            if snap.op == 'dict' and not snap.args:
                r = d
            else:
                r = mk('app', 'dictget', snap, k, d)
            if name == 'pop':
                ip.log(o, 'call', (k,), mk('str', 'del'))
            if name == 'setdefault':
                ip.log(o, 'call', (k,), mk('setdefault', d))
                return Sub(r, recv, (k,))
            return r
        if name == 'copy' and not args:
            return ip.new('dict', ip.termof(recv))
        if name == 'update' and len(args) == 1:
            ip.log(o, 'call', (), mk('update', ip.termof(args[0])))
            return NONE
    if name in ('get',) and args and not star:
        d = ip.termof(args[1]) if len(args) > 1 else NONE
        k, t = ip.termof(args[0]), ip.termof(recv)
        if isinstance(recv, (Term, Sub)) and t.op in ('sym', 'attr', 'index'):
            from .interp import dictkey
            x = ip.termof(ip.getitem(recv, dictkey(k)))
            c = mk('in', k, t)
            NOTNONE.add(x)
            return add(mul(c, x), mul(sub(ONE, c), d))
        return mk('app', 'dictget', t, k, d)
    if name in MUTATORS and not (name in ('add', 'update') and isinstance(recv, (Term, Sub))
                              and (recv.term if isinstance(recv, Sub) else recv).op in ('sym', 'attr', 'index', 'var')):
        if isinstance(recv, Ref) and kind in ('list', 'dict', 'arr') or isinstance(recv, (Term, Sub)):
            before = ip.termof(recv)
            at_ = ip.argterms(args, kw)
            ref = ip.ref_of(recv)
            idx = recv.idx if isinstance(recv, Sub) else ()
            if name == 'pop':
                if ip.heap[ref.id].kind == 'ext' or kind == 'dict':
                    ip.log(ip.heap[ref.id], 'call', idx + tuple(at_[:1]), mk('str', 'del'))
                else:
                    ip.log(ip.heap[ref.id], 'call', idx, mk('m', name, *at_))
                return mk('app', 'popped', before, *at_)
            ip.log(ip.heap[ref.id], 'call', idx, mk('m', name, *at_))
            return mk('app', 'm.' + name, before, *at_)
    # ---- pure methods
    if name in PURE_METHODS and not star:
        r = pure(ip, recv, name, args, kw)
        if r is not NotImplemented:
            return r
        return mk('app', name, ip.termof(recv), *ip.argterms(args, kw))
    if isinstance(recv, (Tup, Rng)):
        return mk('app', name, ip.termof(recv), *ip.argterms(args, kw))
    if isinstance(recv, Iter):
        return method(ip, ip.materialise(recv), name, args, kw)
    if isinstance(recv, Choice):
        return mk('call', mk('attr', ip.termof(recv), name), *ip.argterms(args, kw))
    if isinstance(recv, Bound):
        t = ip.termof(recv)
        if t.op == 'attr' and isinstance(recv.recv, (Term, Sub)):
            return ip.method_effect(t, name, args, kw)
        return mk('call', mk('attr', t, name), *ip.argterms(args, kw))
    if isinstance(recv, (Fn, Cls, Rec)):
        return mk('call', mk('attr', ip.termof(recv), name), *ip.argterms(args, kw))
    if isinstance(recv, Ref) and kind == 'inst':
        return mk('call', mk('attr', ip.termof(recv), name), *ip.argterms(args, kw))
    if isinstance(recv, Sub):
        return ip.method_effect(recv.term, name, args, kw)
    if isinstance(recv, Term):
        return ip.method_effect(recv, name, args, kw)
    return mk('call', mk('attr', ip.termof(recv), name), *ip.argterms(args, kw))


def Ent(x, ip):
    return Entry([], ONE, 'app', (), x, ip.loc())


def pure(ip, recv, name, args, kw):
    t = None
    if name == 'sum':
        return t_sum(ip, [recv] + list(args), kw)
    if name == 'dot' and len(args) == 1 and not kw:
        return t_dot(ip, [recv] + list(args), kw)
    if name == 'copy' and not args:
        if isinstance(recv, Ref) and ip.heap[recv.id].kind == 'list':
            its = ip.const_items(recv)
            if its is not None:
                return ip.list_of(its)
        return ip.new('arr', ip.termof(recv), loc=ip.loc())
    if name in ('conj', 'conjugate') and not args:
        return linear('conj', ip.termof(recv))
    if name == 'transpose' and not args:
        return T(ip.termof(recv))
    if name == 'astype' and len(args) == 1 and not (set(kw) - {'copy'}):
        return ip.new('arr', cast(dtype_term(ip, args[0]), ip.termof(recv)))
    if name in ('any', 'all', 'prod') and not args and not kw:
        return TABLE[name](ip, [recv], kw)
    if name in ('min', 'max') and not args and not kw:
        return TABLE[name](ip, [recv], kw)
    if name == 'reshape':
        ts = [ip.termof(a) for a in args]
        if len(ts) == 1 and ts[0].op == 'tup':
            ts = list(ts[0].args)
        return mk('app', 'reshape', ip.termof(recv), mk('tup', *ts), *ip.argterms([], kw))
    if name in ('ravel', 'flatten') and not args:
        return mk('app', 'reshape', ip.termof(recv), mk('tup', const(-1)), *ip.argterms([], kw))
    if name in ('lower', 'upper'):
        t = ip.termof(recv)
        if t.op == 'str':
            return mk('str', getattr(t.args[0], name)())
    if name == 'index' and len(args) == 1:
        its = ip.const_items(recv)
        if its is not None and all(isinstance(x, Term) and x.op == 'str' for x in its):
            x = ip.termof(args[0])
            if x.op == 'str':
                if x in its:
                    return const(its.index(x))
            r, rest = ZERO, ONE
            for k, y in enumerate(its):
                g = eq(x, y)
                r = add(r, scale(g, k))
                rest = sub(rest, g)
            if rest is not ZERO:
                pc = ip.pc
                ip.pc = pc + (rest,)
                ip.log(ip.raises, 'raise', (), mk('str', 'ValueError'))
                ip.pc = pc
            return r
    if name == 'format':
        return mk('app', 'fmt')
    return NotImplemented


PART.append(linear)
