"""Stand-ins for numpy, math, scipy.special and random seen by the symbolic copy of the source modules.
Each function here is the exact real-number meaning of the library function (trusted base)."""
import math as _math, types, operator, builtins
import numpy as np
from fractions import Fraction as Fr
from . import terms as tm, sym, garr
from .sym import S, SBool, GLen, Unsupported, term, cond, mkbool, isnum
from .garr import GA, ga, ga_keep, obj, mkarray, apply_el, shadow, findax, full, tofloat, BIG, shp, reduce_, CS


def num(x):
    return S(tm.const(x))


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, S))

    def __subclasscheck__(cls, c):
        return c in (builtins.float, S)


class SFloat(metaclass=FloatMeta):
    """float"""
    def __new__(cls, x=0.0):
        if isinstance(x, (S, CS)):
            return x
        if isinstance(x, SBool):
            return S(x.asterm())
        if isinstance(x, GLen):
            return S(tm.NVAR)
        if isinstance(x, np.ndarray):
            if rsize(x) != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            if getattr(x, 'dax', None) is not None:
                raise Unsupported('float of data')
            return SFloat(x.view(np.ndarray).item())
        if isinstance(x, str):
            return sym.wrap(builtins.float(x))
        return sym.wrap(builtins.float(x)) if not isinstance(x, int) else num(x)


def rsize(x):
    return np.ndarray.size.__get__(x)


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class SInt(metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, GLen):
            return x
        if isinstance(x, S):
            if x.isconst():
                return int(x)
            if x.t is tm.NVAR:
                return GLen()
            if x.t.op == 'f' and x.t.a in ('floor', 'round'):
                return x
            return sym.u_floor(x) if bool(x >= 0) else sym.u_ceil(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return SInt(x.view(np.ndarray).item())
        return builtins.int(x, *a)


def dkind(d):
    if d is None:
        return None
    if d is SFloat or d is builtins.float or d is float:
        return 'f'
    if d is SInt or d is builtins.int:
        return 'i'
    if d is builtins.bool:
        return 'b'
    if d is object:
        return 'O'
    return np.dtype(d).kind


def rdtype(d):
    """dtype argument for native numpy"""
    return {SFloat: builtins.float, SInt: builtins.int}.get(d, d)


# ---------------------------------------------------------------- constructors
def zeros(shape, dtype=float, order='C'):
    k = dkind(dtype)
    if k in 'fc':
        return full(shape, num(0))
    sh, dax = shp(shape)
    if k == 'b' and dax is not None:
        return full(shape, False)
    if dax is not None:
        return full(shape, num(0))
    return np.zeros(sh, dtype=rdtype(dtype))


def ones(shape, dtype=float, order='C'):
    k = dkind(dtype)
    sh, dax = shp(shape)
    if k == 'b' and dax is not None:
        return full(shape, True)
    if k == 'f' or dax is not None:
        return full(shape, num(1))
    return np.ones(sh, dtype=rdtype(dtype))


def empty(shape, dtype=float, order='C'):
    if dkind(dtype) in 'fO':
        r = full(shape, num(0))
        if dkind(dtype) == 'O':
            r.hetero = True
        return r
    return zeros(shape, dtype)


def full_(shape, v, dtype=None, order='C'):
    sh, dax = shp(shape)
    if isinstance(v, np.ndarray):
        r = full(shape, num(0))
        r[...] = v
        return r
    if dax is None and isinstance(v, (builtins.bool, builtins.int, np.bool_)) and dkind(dtype) in (None, 'b', 'i'):
        return np.full(sh, v)
    return full(shape, num(v) if isinstance(v, builtins.int) and not isinstance(v, builtins.bool) else sym.wrap(v) if isnum(v) and not isinstance(v, (bool, np.bool_)) else v)


def _like(f):
    def g(a, *args, dtype=None, **kw):
        a = mkarray(a)
        if not isinstance(a, np.ndarray):
            a = ga0(a)
        k = dkind(dtype)
        if k is None and not isinstance(a, GA):
            dtype = a.dtype
        elif k is None:
            dtype = builtins.float if not garr.ismask(a) else builtins.bool
        return f(a.shape, *args, dtype=dtype)
    return g


def ga0(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return ga_keep(r)


zeros_like, ones_like, empty_like, full_like = _like(zeros), _like(ones), _like(empty), _like(full_)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    r = asarray(x, dtype=dtype)
    if isinstance(r, np.ndarray) and (r is x or (isinstance(x, np.ndarray) and np.shares_memory(r.view(np.ndarray), x.view(np.ndarray)))) and copy:
        r = r.copy()
    if not isinstance(r, np.ndarray):
        r = ga0(r)
    while r.ndim < ndmin:
        r = ga_keep(garr._raw(r)[None], None if getattr(r, 'dax', None) is None else r.dax + 1)
    return r


def asarray(x, dtype=None, **kw):
    k = dkind(dtype)
    if isinstance(x, (range, zip, set)) or isinstance(x, types.GeneratorType):
        x = list(x) if not isinstance(x, set) else x
    if k == 'O' and isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) for v in x):
        shs = set(garr.shadow(v).shape for v in x)
        if len(shs) > 1:
            r = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                r[i] = sym.wrap(v) if not isinstance(v, np.ndarray) else v
            return ga_keep(r)
    r = mkarray(x)
    if isinstance(r, list):
        r = ga_keep(np.array(r, dtype=object))
    if isinstance(x, (list, tuple)) and len(x) == 0:
        r = ga_keep(np.empty(0, dtype=object)) if k in (None, 'f') else np.array([], dtype=rdtype(dtype))
    if not isinstance(r, np.ndarray):
        if r is None or isinstance(r, str) or not (isnum(r) or isinstance(r, (S, SBool, CS, complex))):
            return np.array(r, dtype=object) if not isinstance(r, str) else np.array(r)
        r = ga0(r) if not isinstance(r, (builtins.int, builtins.bool, np.integer, np.bool_)) else (np.array(r) if not isinstance(r, GLen) else ga0(num(0)))
    if k == 'f':
        if not isinstance(r, GA):
            return tofloat(r)
        return tofloat(r) if any(isinstance(v, (int, bool)) for v in garr._raw(r).ravel()) else r
    if k == 'i' and isinstance(r, GA):
        return r.astype(builtins.int)
    if k == 'b' and isinstance(r, GA):
        return garr.force(r)
    if k == 'O':
        return r
    if k and not isinstance(r, GA):
        return r.astype(rdtype(dtype)) if r.dtype.kind != k else r
    return r


def arange(*a, dtype=None):
    a = [x for x in a]
    k = dkind(dtype)
    if len(a) == 1 and isinstance(a[0], GLen):
        return garr.fullIX()
    for x in a:
        if isinstance(x, GLen):
            raise Unsupported('arange over the data')
    if all(isinstance(x, (builtins.int, np.integer)) for x in a):
        r = np.arange(*a)
        return r if k in (None, 'i') else tofloat(r)
    a = [term(x) for x in a]
    if any(x.op != 'c' for x in a):
        raise Unsupported('arange symbolic')
    lo, hi, st = (Fr(0), a[0].a, Fr(1)) if len(a) == 1 else (a[0].a, a[1].a, a[2].a if len(a) > 2 else Fr(1))
    n = max(0, _math.ceil((hi - lo) / st))
    if k == 'i':
        return np.array([int(lo + i * st) for i in range(n)], dtype=int)
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = num(lo + i * st)
    return ga_keep(r)


def linspace(a, b, n=50, endpoint=True, dtype=None, **kw):
    n = operator.index(n)
    a, b = sym.wrap(a), sym.wrap(b)
    r = np.empty(n, dtype=object)
    d = n - 1 if endpoint else n
    for i in range(n):
        r[i] = a + (b - a) * Fr(i, d) if d else a
    return ga_keep(r) if dkind(dtype) != 'i' else ga_keep(r).astype(builtins.int)


def identity(n, dtype=None):
    r = full((n, n), num(0))
    for i in range(n):
        r[i, i] = num(1)
    return r


def fromiter(it, dtype=None, count=-1):
    l = list(it)
    return asarray(l, dtype=dtype) if l else (np.array([], dtype=builtins.int) if dkind(dtype) == 'i' else ga_keep(np.empty(0, dtype=object)))


def where(c, a=None, b=None):
    if a is None:
        return garr.nonzero(asarray(c))
    c = garr.cvt(c)
    return apply_el(garr.s_where, (c, a, b))


def _u(name):
    u = getattr(np, name)

    def f(*a, **kw):
        a = [garr.cvt(x) for x in a]
        if name not in INTOK:
            a = [tofloat(x) if isinstance(x, np.ndarray) and not isinstance(x, GA) and x.dtype.kind in 'iuf' else x for x in a]
        return garr.gufunc(u, '__call__', tuple(a), kw) if not all(isinstance(x, np.ndarray) and x.dtype != object for x in a) or name not in INTOK \
            else u(*a, **kw)
    f.__name__ = name
    f.reduce = lambda x, axis=0, **kw: reduce_(name, x, axis, kw.get('keepdims', False))
    f.accumulate = lambda x, axis=0, **kw: garr.accumulate(name, x, axis)
    f.outer = lambda x, y, **kw: garr.gufunc(u, 'outer', (x, y), kw)
    return f


INTOK = {'add', 'subtract', 'multiply', 'negative', 'maximum', 'minimum', 'less', 'greater', 'equal', 'not_equal', 'less_equal', 'greater_equal',
         'logical_and', 'logical_or', 'logical_not', 'invert', 'bitwise_and', 'bitwise_or', 'remainder', 'mod', 'floor_divide', 'absolute', 'sign',
         'isfinite', 'isnan', 'isinf', 'square'}


def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        a = asarray(a)
        if not isinstance(a, GA):
            return getattr(np, {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_or': 'any', 'logical_and': 'all'}[name])(a, axis=axis)
        if a.ndim == 0:
            return a.view(np.ndarray).item()
        r = reduce_(name, a, axis, keepdims)
        if name.startswith('logical') and not isinstance(r, np.ndarray):
            r = mkbool(cond(r))
        return r
    return f


def average(a, axis=None, weights=None, **kw):
    a = tofloat(asarray(a))
    if weights is None:
        return a.mean(axis)
    w = tofloat(asarray(weights))
    if axis is not None and a.ndim > 1 and w.ndim == 1:
        if axis % a.ndim != 0:
            raise Unsupported('average axis')
        return garr.contract(w, 0, a, 0) / w.sum()
    return (a * w).sum(axis) / w.sum(axis)


def mean(a, axis=None, **kw):
    return tofloat(asarray(a)).mean(axis)


def std(a, axis=None, ddof=0, **kw):
    return tofloat(asarray(a)).std(axis, ddof=ddof)


def var(a, axis=None, ddof=0, **kw):
    return tofloat(asarray(a)).var(axis, ddof=ddof)


def structural(f, noax=False):
    """function that only rearranges: run on the values and on the shape shadow"""
    def g(*args, **kw):
        conv = lambda h: (tuple(h(a) for a in args), {k: h(v) for k, v in kw.items()})

        def raw(a):
            if isinstance(a, GA):
                return garr._raw(a)
            if isinstance(a, np.ndarray):
                return a
            if isinstance(a, (list, tuple)) and any(isinstance(x, (np.ndarray, S)) for x in a):
                return type(a)(raw(x) for x in a)
            if isinstance(a, S) and not isinstance(a, GLen):
                q = np.empty((), dtype=object); q[()] = a
                return q
            return a

        def sh(a):
            if isinstance(a, np.ndarray):
                return shadow(a)
            if isinstance(a, (list, tuple)) and any(isinstance(x, (np.ndarray, S)) for x in a):
                return type(a)(sh(x) for x in a)
            if isinstance(a, S):
                return np.int8(0)
            return a
        anydax = hasdax(args) or hasdax(list(kw.values()))
        a1, k1 = conv(raw)
        r = f(*a1, **k1)
        dax = None
        if anydax:
            a2, k2 = conv(sh)
            s = f(*a2, **k2)
            dax = findax(s.shape)
            if dax is None and False:
                raise Unsupported('data axis lost')
        if isinstance(r, np.ndarray) and r.dtype != object and not anydax:
            return r if r.dtype.kind in 'iubUS' else tofloat(r)
        if r.dtype != object:
            r = obj(r)
        return ga_keep(r, dax)
    return g


def hasdax(xs):
    return any((isinstance(a, GA) and a.dax is not None) or (isinstance(a, (list, tuple)) and hasdax(a)) for a in xs)


class DCat(object):
    """data arrays (and arrays of known length) one after the other along the axis `ax` (counted from the end); only what the
    code does with one: arithmetic, sums, inner products, transposition, selection of the other axis, reshape (k,-1)"""
    __array_ufunc__ = None

    def __init__(self, parts, ax=-1):
        self.parts = list(parts)
        self.ax = ax

    ndim = property(lambda self: self.parts[0].ndim)

    @property
    def shape(self):
        n = sum((p.shape[self.ax] for p in self.parts[1:]), self.parts[0].shape[self.ax])
        s = list(self.parts[0].shape)
        s[self.ax] = n
        return tuple(s)

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        k = len(self.parts)
        if sh == (-1,):
            return self
        if self.ndim == 1 and len(sh) == 2 and (sh[0] == k) and (isinstance(sh[1], GLen) or sh[1] == -1) and all(getattr(p, 'dax', None) == 0 for p in self.parts):
            return concatenate([p.reshape(1, -1) for p in self.parts], axis=0)
        raise Unsupported('reshape of a concatenation of data')

    def _op(f):
        def g(self, o):
            if isinstance(o, DCat):
                if len(o.parts) != len(self.parts) or o.ax != self.ax:
                    raise Unsupported('unlike concatenations')
                return DCat([f(a, b) for a, b in zip(self.parts, o.parts)], self.ax)
            if isinstance(o, np.ndarray) and (getattr(o, 'dax', None) is not None or (o.ndim >= -self.ax and garr.rshape(o)[self.ax] != 1)):
                raise Unsupported('concatenation of data with an array')
            return DCat([f(a, o) for a in self.parts], self.ax)
        return g

    __add__ = __radd__ = _op(lambda a, b: a + b)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)
    __mul__ = __rmul__ = _op(lambda a, b: a * b)
    __truediv__ = _op(lambda a, b: a / b)

    def __neg__(self):
        return DCat([-p for p in self.parts], self.ax)

    def map(self, f):
        return DCat([f(p) for p in self.parts], self.ax)

    def copy(self):
        return self.map(lambda p: p.copy())

    def transpose(self):
        return DCat([p.transpose() for p in self.parts], -1 - (self.ax + self.ndim))
    T = property(transpose)

    def sum(self, *a, **kw):
        if self.ndim != 1:
            raise Unsupported('sum of a concatenation of data')
        r = 0
        for p in self.parts:
            r = r + p.sum()
        return r

    def __getattr__(self, name):
        raise Unsupported('concatenation of data: ' + name)

    def __iter__(self):
        raise Unsupported('concatenation of data: iteration')

    def __getitem__(self, k):
        if self.ndim == 2 and isinstance(k, tuple) and len(k) == 2 and isinstance(k[self.ndim + self.ax], slice) and k[self.ndim + self.ax] == slice(None):
            o = k[1 - (self.ndim + self.ax)]
            return DCat([p[k] for p in self.parts], -1 if isinstance(o, (int, np.integer)) else self.ax)
        if self.ndim == 1 and isinstance(k, slice) and k.step is None:
            # the parts themselves, when the bounds are the sums of their lengths
            def pos(v, d):
                if v is None:
                    return d
                n = 0
                for i, p in enumerate(self.parts):
                    if bool(v is n) or (not isinstance(v, GLen) and not isinstance(n, GLen) and not isinstance(v, S) and not isinstance(n, S) and v == n):
                        return i
                    n = n + p.shape[0] if not (isinstance(n, int) and not isinstance(n, GLen) and n == 0) else p.shape[0]
                    if (isinstance(n, S) and isinstance(v, S) and term(n) is term(v)):
                        return i + 1
                raise Unsupported('slice of a concatenation of data')
            a, b = pos(k.start, 0), pos(k.stop, len(self.parts))
            if b == a + 1:
                return self.parts[a]
            return DCat(self.parts[a:b])
        raise Unsupported('concatenation of data: item')


def cat_contract(a, i, b, j):
    """product summed over axis i of a and j of b (counted from the end), one of them a concatenation"""
    ca, cb = isinstance(a, DCat) and a.ax == i, isinstance(b, DCat) and b.ax == j
    if ca != cb:
        if ca or cb:
            raise Unsupported('inner product with a concatenation')
        if isinstance(a, DCat) and isinstance(b, DCat):
            raise Unsupported('inner product of concatenations')
    if ca:
        if len(a.parts) != len(b.parts):
            raise Unsupported('unlike concatenations')
        r = None
        for p, q in zip(a.parts, b.parts):
            v = garr.contract(p, p.ndim + i, q, q.ndim + j)
            r = v if r is None else r + v
        return r
    if isinstance(a, DCat):
        raise Unsupported('inner product with a concatenation')
    return DCat([garr.contract(a, a.ndim + i, q, q.ndim + j) for q in b.parts], b.ax)


def catted(f, i, j):
    def g(a, b):
        if isinstance(a, DCat) or isinstance(b, DCat):
            a, b = (x if isinstance(x, DCat) else asarray(x) for x in (a, b))
            return cat_contract(a, i, b, j if b.ndim > 1 else -1)
        return f(a, b)
    return g


def append(a, b, axis=None):
    a, b = (x if isinstance(x, DCat) else asarray(x) for x in (a, b))
    if axis is None:
        a, b = (x.reshape(-1) if x.ndim != 1 else x for x in (a, b))
        axis = 0
    return concatenate((a, b), axis=axis)


def concatenate(seq, axis=0, **kw):
    seq = [x if isinstance(x, DCat) else asarray(x) for x in seq]
    if any(isinstance(x, DCat) for x in seq):
        ax = next(x.ax for x in seq if isinstance(x, DCat))
        if (axis if axis < 0 else axis - seq[0].ndim) != ax:
            raise Unsupported('concatenation of data along another axis')
        return DCat([q for x in seq for q in (x.parts if isinstance(x, DCat) else [x])], ax)
    if any(isinstance(x, GA) for x in seq):
        seq = [tofloat(x) if x.dtype != bool else x for x in seq]
    elif all(x.dtype.kind in 'iub' for x in seq):
        return np.concatenate(seq, axis=axis)
    # empty (0,) joined with data stays data
    if hasdax(seq):
        ax = axis % seq[0].ndim
        dd = [x for x in seq if x.dax == ax]
        rest = [x for x in seq if x.dax != ax]
        if len(dd) == 1 and all(garr.rshape(x)[ax] == 0 for x in rest):
            return dd[0].copy()
        if len(dd) >= 1:
            for x in seq:
                if x.ndim != seq[0].ndim or any(garr.rshape(x)[i] != garr.rshape(seq[0])[i] for i in range(x.ndim) if i != ax):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
            return DCat([tofloat(x) for x in seq], ax - seq[0].ndim)
    return structural(lambda s, axis=0: np.concatenate(s, axis=axis))(seq, axis=axis)


def insert(a, i, v, axis=None):
    a = asarray(a)
    if getattr(a, 'dax', None) is not None and (axis is None or axis % a.ndim == a.dax):
        raise Unsupported('insert in data')
    if isinstance(a, GA) or isinstance(v, (S, GA)):
        a = tofloat(a)
        v = garr.cvt(v)
        return structural(np.insert)(a, i, v if isinstance(v, np.ndarray) else ga0(sym.wrap(v)), axis)
    return np.insert(a, i, v, axis)


def delete(a, i, axis=None):
    a = asarray(a)
    if getattr(a, 'dax', None) is not None and (axis is None or axis % a.ndim == a.dax):
        raise Unsupported('delete from data')
    return structural(np.delete)(a, i, axis) if isinstance(a, GA) else np.delete(a, i, axis)


def roll(a, s, axis=None):
    a = asarray(a)
    if getattr(a, 'dax', None) is not None and (axis is None or axis % a.ndim == a.dax):
        raise Unsupported('roll of data')
    return structural(np.roll)(a, s, axis) if isinstance(a, GA) else np.roll(a, s, axis)


def sort(a, axis=-1, **kw):
    a = array(a)
    if isinstance(a, GA):
        a.sort()
        return a
    return np.sort(a)


def argsort(a, *k, **kw):
    a = asarray(a)
    return a.argsort() if isinstance(a, GA) else np.argsort(a)


def cumsum(a, axis=None, **kw):
    a = asarray(a)
    return garr.accumulate('add', a, axis) if isinstance(a, GA) else np.cumsum(a, axis)


def cumprod(a, axis=None, **kw):
    a = asarray(a)
    return garr.accumulate('multiply', a, axis) if isinstance(a, GA) else np.cumprod(a, axis)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if not isinstance(a, GA):
        return np.diff(a, n, axis)
    if a.ndim != 1 or a.dax is not None or n != 1:
        raise Unsupported('diff')
    return a[1:] - a[:-1]


def isfinite(x):
    return apply_el(garr.s_isfinite, (x,)) if not (isinstance(x, np.ndarray) and x.dtype != object) else np.isfinite(x)


def isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


def ndim(x):
    return asarray(x).ndim


def shape(x):
    return asarray(x).shape


def size(x, axis=None):
    a = asarray(x)
    return a.size if axis is None else a.shape[axis]


def vdot(a, b):
    return garr.inner(asarray(a).reshape(-1), asarray(b).reshape(-1))


def outer(a, b, **kw):
    return garr.gufunc(np.multiply, 'outer', (asarray(a).reshape(-1), asarray(b).reshape(-1)), {})


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, builtins.int):
        if axes == 1:
            return garr.contract(a, a.ndim - 1, b, 0)
        if axes == 0:
            if a.ndim and b.ndim:
                return garr.gufunc(np.multiply, 'outer', (a, b), {})
            return a * b
        raise Unsupported('tensordot')
    i, j = axes
    if isinstance(i, (list, tuple)) and len(i) > 1:
        i, j = [k % a.ndim for k in i], [k % b.ndim for k in j]
        ra, rb = [k for k in range(a.ndim) if k not in i], [k for k in range(b.ndim) if k not in j]
        at, bt = a.transpose(ra + list(i)), b.transpose(list(j) + rb)
        r = at[(Ellipsis,) + (None,) * len(rb)] * bt
        for _ in i:
            r = r.sum(axis=len(ra))
        return r
    i = i[0] if isinstance(i, (list, tuple)) else i
    j = j[0] if isinstance(j, (list, tuple)) else j
    return garr.contract(a, i % a.ndim, b, j % b.ndim)


def einsum(*a, **kw):
    raise Unsupported('einsum')


def trace(a):
    a = asarray(a)
    s = 0
    for i in range(garr.rshape(a)[0]):
        s = s + a[i, i]
    return s


def diag(a, k=0):
    return structural(np.diag)(asarray(a), k)


def power(a, b, **kw):
    return U['power'](a, b, **kw)


def copy(a):
    return array(a)


def array_equal(a, b):
    if isinstance(a, DCat) or isinstance(b, DCat):
        if not (isinstance(a, DCat) and isinstance(b, DCat)) or len(a.parts) != len(b.parts) or a.ax != b.ax:
            return False
        return all(bool(array_equal(x, y)) for x, y in zip(a.parts, b.parts))
    a, b = asarray(a), asarray(b)
    if shadow(a).shape != shadow(b).shape:
        return False
    return _red('logical_and')(a == b)


def allclose(a, b, *k, **kw):
    raise Unsupported('allclose')


def polyval(p, x):
    r = num(0)
    for c in p:
        r = r * x + c
    return r


def hasobj(x, d=0):
    return isinstance(x, (S, SBool, GA, GLen, CS)) or (d < 3 and isinstance(x, (list, tuple)) and any(hasobj(y, d + 1) for y in x)) \
        or (isinstance(x, np.ndarray) and x.dtype == object)


U = {}
for _k in list(garr.U1) + list(garr.U2):
    if hasattr(np, _k):
        U[_k] = _u(_k)
U['abs'] = U['absolute']
STRUCT = ['reshape', 'transpose', 'vstack', 'hstack', 'column_stack', 'stack', 'atleast_1d', 'atleast_2d', 'squeeze', 'expand_dims', 'swapaxes', 'moveaxis',
          'ravel', 'tile', 'broadcast_to', 'flipud', 'fliplr', 'flip', 'triu', 'tril', 'take', 'repeat']


def reshape(a, sh, *k, **kw):
    a = asarray(a)
    return a.reshape(sh) if not isinstance(a, GA) else a.reshape(sh if isinstance(sh, (tuple, list)) else (sh,))


def ravel(a, **kw):
    return asarray(a).reshape(-1)


def _flip(f):
    def g(a, *k, **kw):
        a = asarray(a)
        if getattr(a, 'dax', None) is not None:
            raise Unsupported('flip of data')
        return structural(f)(a, *k, **kw)
    return g


OVER = dict(zeros=zeros, ones=ones, empty=empty, full=full_, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
            array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, arange=arange, linspace=linspace, identity=identity, eye=identity,
            fromiter=fromiter, where=where, sum=_red('add'), prod=_red('multiply'), max=_red('maximum'), min=_red('minimum'), amax=_red('maximum'),
            amin=_red('minimum'), nanmax=_red('maximum'), nanmin=_red('minimum'), any=_red('logical_or'), all=_red('logical_and'), average=average, mean=mean,
            std=std, var=var, append=append, concatenate=concatenate, insert=insert, delete=delete, roll=roll, sort=sort, argsort=argsort, cumsum=cumsum,
            cumprod=cumprod, diff=diff, isscalar=isscalar, ndim=ndim, shape=shape, size=size, dot=catted(garr.dot, -1, -2), inner=catted(garr.inner, -1, -1), vdot=vdot,
            outer=outer, matmul=lambda a, b: garr.matmul(asarray(a), asarray(b)), tensordot=tensordot, einsum=einsum, trace=trace, diag=diag, diagonal=diag, copy=copy, array_equal=array_equal,
            allclose=allclose, polyval=polyval, fix=lambda a, **kw: apply_el(garr.s_fix, (a,)), real=lambda a: apply_el(garr.s_real, (asarray(a),)),
            imag=lambda a: apply_el(garr.s_imag, (asarray(a),)), argmax=lambda a, axis=None: asarray(a).argmax(axis),
            argmin=lambda a, axis=None: asarray(a).argmin(axis), nonzero=lambda a: garr.nonzero(asarray(a)), flatnonzero=lambda a: garr.nonzero(asarray(a))[0],
            reshape=reshape, ravel=ravel, squeeze=lambda a, axis=None: asarray(a).squeeze(axis), isfinite=isfinite, set_printoptions=lambda *a, **k: None,
            flip=_flip(np.flip), flipud=_flip(np.flipud), fliplr=_flip(np.fliplr), clip=lambda a, lo, hi: U['minimum'](U['maximum'](a, lo), hi),
            around=lambda a, *k: apply_el(garr.s_rint, (a,)), round=lambda a, *k: apply_el(garr.s_rint, (a,)))


class NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)


class NDArr(metaclass=NDMeta):
    def __new__(cls, shape, dtype=builtins.float, *a, **kw):
        return empty(shape, dtype)


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy_shim')
        self.pi = S(tm.PI)
        self.e = S(tm.exp(tm.ONE))
        self.inf = self.Inf = builtins.float('inf')
        self.nan = self.NaN = builtins.float('nan')
        self.ndarray = NDArr
        self.newaxis = None
        self.float64 = SFloat
        self.linalg = LinAlg()
        self.random = Random()
        for k, v in U.items():
            setattr(self, k, v)
        for k, v in OVER.items():
            setattr(self, k, v)

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v):
            return v
        if name in STRUCT:
            return lambda a, *k, **kw: structural(v)(asarray(a) if not (isinstance(a, (list, tuple)) and any(isinstance(x, np.ndarray) for x in a)) else [asarray(x) for x in a], *k, **kw)

        def f(*a, **kw):
            if any(hasobj(x) for x in a) or any(hasobj(x) for x in kw.values()):
                raise Unsupported('numpy.%s' % name)
            r = v(*[rdtype(x) if isinstance(x, type) else x for x in a], **{k: rdtype(x) if isinstance(x, type) else x for k, x in kw.items()})
            if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
                return tofloat(r)
            return r
        return f


def afunc(func, args, kw):
    n = func.__name__
    f = OVER.get(n) or U.get(n)
    if f is None and n in STRUCT:
        f = structural(func)
    if f is None:
        raise Unsupported('numpy.%s' % n)
    return f(*args, **kw)


class LinAlg(object):
    LinAlgError = np.linalg.LinAlgError
    inv = staticmethod(garr.linv)
    det = staticmethod(garr.ldet)
    qr = staticmethod(garr.lqr)

    @staticmethod
    def solve(a, b):
        return garr.lsolve(a, asarray(b))

    @staticmethod
    def norm(a, ord=None, axis=None):
        a = asarray(a)
        return U['sqrt']((a * a).sum(axis))

    def __getattr__(self, name):
        def f(*a, **kw):
            raise Unsupported('numpy.linalg.%s' % name)
        return f


# ---------------------------------------------------------------- random numbers
class RandomState(object):
    """every random number is an arbitrary value of its range"""
    def __init__(self, seed=None):
        self.seed_ = seed

    def _new(self, base, shape, cons):
        e = sym.engine()

        def one():
            v = e.freshvar(base)
            for c in cons(v):
                e.assume(cond(c))
            return v
        if not shape:
            return one()
        sh, dax = shp(shape if len(shape) > 1 or isinstance(shape[0], (builtins.int, S)) else shape[0])
        if dax is not None:
            raise Unsupported('random over data')
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            r[i] = one()
        return ga_keep(r)

    def rand(self, *shape):
        return self._new('rand', shape, lambda v: (v >= 0, v < 1))

    random_sample = random = lambda self, size=None: self.rand(*(() if size is None else (size,)))

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.rand(*(() if size is None else (size,)))

    def randn(self, *shape):
        return self._new('randn', shape, lambda v: ())

    def normal(self, loc=0, scale=1, size=None):
        return loc + scale * self.randn(*(() if size is None else (size,)))

    standard_normal = lambda self, size=None: self.randn(*(() if size is None else (size,)))

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        low, high = operator.index(low), operator.index(high)
        if high <= low:
            raise ValueError('low >= high')
        one = lambda: low + sym.engine().choose(high - low)
        if size is None:
            return one()
        return np.array([one() for _ in range(operator.index(size))])

    def permutation(self, n):
        n = list(range(n)) if isinstance(n, (builtins.int, np.integer)) else n
        idx = []
        left = list(range(len(n)))
        while left:
            k = sym.engine().choose(len(left)) if len(left) > 1 else 0
            idx.append(left.pop(k))
        r = np.array(idx, dtype=builtins.int)
        return np.asarray(n)[r] if not isinstance(n, GA) else n[r]

    def geometric(self, p, size=None):
        return 1 + sym.engine().choose(3)

    def seed(self, s=None):
        self.seed_ = s

    def __getattr__(self, name):
        raise Unsupported('random.%s' % name)

    def __deepcopy__(self, memo):
        return self


class Random(RandomState):
    RandomState = RandomState

    def __init__(self):
        pass


# ---------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math_shim')
        self.pi = S(tm.PI)
        self.e = S(tm.exp(tm.ONE))
        self.inf, self.nan = _math.inf, _math.nan

    def __getattr__(self, name):
        m = {'sqrt': sym.u_sqrt, 'exp': sym.u_exp, 'sin': sym.u_sin, 'cos': sym.u_cos, 'tan': sym.u_tan, 'atan': sym.u_arctan, 'asin': sym.u_arcsin,
             'acos': sym.u_arccos, 'sinh': sym.u_sinh, 'cosh': sym.u_cosh, 'tanh': sym.u_tanh, 'fabs': garr.s_abs, 'erf': sym.u_erf, 'erfc': sym.u_erfc,
             'lgamma': sym.u_gammaln, 'gamma': garr.SPECIAL1['gamma'], 'isfinite': garr.s_isfinite, 'isnan': garr.s_isnan, 'isinf': garr.s_isinf,
             'log10': garr.U1['log10'], 'log2': garr.U1['log2'], 'radians': garr.U1['radians'], 'degrees': garr.U1['degrees'], 'log1p': garr.U1['log1p'], 'expm1': garr.U1['expm1']}
        if name in m:
            f = m[name]

            def g(x):
                x = scalar(x)
                if name == 'sqrt' and isinstance(x, S) and x.t.op != 'c' and not tm.is_nneg(x.t):
                    if not bool(x >= 0):
                        raise ValueError('math domain error')
                r = f(x)
                if name == 'sqrt' and isinstance(r, builtins.float) and _math.isnan(r):
                    raise ValueError('math domain error')
                return r
            return g
        if name == 'log':
            def log(x, b=None):
                x = scalar(x)
                t = term(x)
                if t is not None:
                    if t.op == 'c':
                        if t.a <= 0:
                            raise ValueError('math domain error')
                    elif not tm.is_pos(t) and not bool(x > 0):
                        raise ValueError('math domain error')
                elif x < 0:
                    raise ValueError('math domain error')
                r = sym.u_log(x)
                return r if b is None else r / sym.u_log(b)
            return log
        if name in ('floor', 'ceil'):
            f = sym.u_floor if name == 'floor' else sym.u_ceil
            return lambda x: (lambda r: int(r) if isinstance(r, S) and r.isconst() else r)(f(scalar(x)))
        if name == 'pow':
            return lambda a, b: garr.s_pow(scalar(a), scalar(b))
        if name == 'atan2':
            return lambda a, b: sym.u_arctan2(scalar(a), scalar(b))
        if name == 'hypot':
            return lambda a, b: garr.U2['hypot'](scalar(a), scalar(b))
        if name == 'copysign':
            return lambda a, b: sym.u_copysign(scalar(a), scalar(b))
        v = getattr(_math, name)
        if name in ('factorial', 'gcd', 'comb'):
            return lambda *a: v(*[operator.index(x) for x in a])

        def h(*a):
            raise Unsupported('math.%s' % name)
        return h


def scalar(x):
    if isinstance(x, np.ndarray):
        if rsize(x) != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if getattr(x, 'dax', None) is not None:
            raise Unsupported('scalar of data')
        return x.view(np.ndarray).item()
    return x


class SpecialShim(types.ModuleType):
    def __init__(self):
        super().__init__('special_shim')

    def __getattr__(self, name):
        if name in garr.SPECIAL1:
            f = garr.SPECIAL1[name]
            return lambda x: apply_el(f, (garr.cvt(x),))
        if name == 'expit':
            return lambda x: apply_el(lambda v: 1 / (1 + sym.u_exp(-garr._n(v))), (garr.cvt(x),))
        if name == 'logsumexp':
            return lambda x, axis=None: U['log'](_red('add')(U['exp'](x), axis=axis))

        def f(*a, **kw):
            raise Unsupported('special.%s' % name)
        return f


# ---------------------------------------------------------------- builtins
def b_len(x):
    return x.glen() if isinstance(x, GA) else x.size if isinstance(x, garr.IX) else builtins.len(x)


class Gen(object):
    """marker: range over the data"""


def b_range(*a):
    if len(a) == 1 and isinstance(a[0], GLen):
        return garr.GSeq(garr.GIdx(0))
    if any(isinstance(x, GLen) for x in a):
        raise Unsupported('loop over part of the data points')
    return builtins.range(*[operator.index(garr._cs(x)) for x in a])


def b_enumerate(x, start=0):
    if garr.isgseq(x):
        return garr.GSeq((garr.GIdx(0), garr.gitem(x)))
    return builtins.enumerate(x, start)


def b_zip(*a, **kw):
    if any(garr.isgseq(x) for x in a):
        if not all(garr.isgseq(x) for x in a):
            raise Unsupported('zip of data with something else')
        return garr.GSeq(tuple(garr.gitem(x) for x in a))
    return builtins.zip(*a, **kw)


def b_sum(x, start=0):
    if isinstance(x, GA) and x.ndim == 1:
        return reduce_('add', x) + start
    return builtins.sum(x, start)


def b_abs(x):
    return garr.s_abs(x) if isinstance(x, (S, CS)) else apply_el(garr.s_abs, (x,)) if isinstance(x, GA) else builtins.abs(x)


def _mm(f2, bf):
    def g(*a, key=None, default=None):
        if key is not None:
            return bf(*a, key=key)
        if len(a) == 1:
            a = list(a[0])
        if any(isinstance(x, S) for x in a):
            r = a[0]
            for x in a[1:]:
                r = f2(r, x)
            return r
        return bf(*a) if len(a) > 1 else bf(a)
    return g


b_max, b_min = _mm(sym.u_max, builtins.max), _mm(sym.u_min, builtins.min)


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, u) for u in t)
    if t is SFloat or t is builtins.float or t is np.floating:
        return isinstance(x, (builtins.float, S)) and not isinstance(x, SBool)
    if t is SInt or t is builtins.int:
        return isinstance(x, builtins.int)
    if t is builtins.bool:
        return isinstance(x, (builtins.bool, SBool))
    if builtins.isinstance(t, type) and t.__module__ == 'numbers':
        return isinstance(x, t) or isinstance(x, S)
    if t is np.ndarray or t is NDArr:
        return builtins.isinstance(x, np.ndarray)
    return builtins.isinstance(x, t)


def b_round(x, n=None):
    if isinstance(x, S):
        return garr.s_rint(x) if not x.isconst() else x.__round__(n)
    return builtins.round(x, n)


def b_pow(a, b, *c):
    return garr.s_pow(a, b)


def b_div(a, b):
    """the / operator"""
    if isinstance(a, (builtins.int, np.integer)) and isinstance(b, (builtins.int, np.integer)) and not isinstance(a, GLen) and not isinstance(b, GLen):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return num(Fr(int(a), int(b)))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, GA) and not isinstance(b, GA):
            a = tofloat(a) if isinstance(a, np.ndarray) else a
            b = tofloat(b) if isinstance(b, np.ndarray) else b
        return apply_el(garr.s_div, (a, b))
    if isinstance(b, S) and b.t is tm.ZERO and isinstance(a, (S, builtins.int)):
        raise ZeroDivisionError('division by zero')
    return a / b


def b_powop(a, b):
    if isinstance(a, (builtins.int, np.integer)) and isinstance(b, (builtins.int, np.integer)) and not isinstance(a, GLen):
        return a ** b if b >= 0 else num(Fr(int(a)) ** int(b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return apply_el(garr.s_pow, (a, b))
    return garr.s_pow(a, b) if isinstance(a, (S, builtins.int, builtins.float)) and isinstance(b, (S, builtins.int, builtins.float)) else a ** b


BUILTINS = dict(_vc_for=garr.forloop, enumerate=b_enumerate, zip=b_zip, float=SFloat, int=SInt, len=b_len, range=b_range, sum=b_sum, abs=b_abs, max=b_max, min=b_min, isinstance=b_isinstance, round=b_round, pow=b_pow)


def b_fmt(l, r):
    """'...' % values: a value without a number is shown as nan"""
    def num(v):
        if isinstance(v, sym.S):
            return float(v.t.a) if v.t.op == 'c' and v.t.a.denominator != 1 else int(v.t.a) if v.t.op == 'c' else float('nan')
        if isinstance(v, (sym.SBool, sym.GLen)):
            return 0
        return v
    if isinstance(r, tuple):
        r = tuple(num(v) for v in r)
    elif not isinstance(r, dict):
        r = num(r)
    try:
        return l % r
    except (ValueError, OverflowError):
        return l
