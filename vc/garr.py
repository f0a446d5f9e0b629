"""Object arrays over symbolic reals with one axis of generic (unbounded) length.

A GA is a numpy object array.  `dax` names the axis that stands for the data points: it has size 1 in
memory and holds the value at *an arbitrary* point; the number of points is the symbol N."""
import math, operator
import numpy as np
from fractions import Fraction as Fr
from . import terms as tm
from . import sym
from .sym import S, SBool, GLen, Unsupported, term, cond, cdat, mkbool, isnum, engine

BIG = 211


class CS(object):
    """symbolic complex number"""
    __array_priority__ = 1100

    def __init__(self, re, im):
        self.real, self.imag = sym.wrap(re), sym.wrap(im)

    @staticmethod
    def of(x):
        return x if isinstance(x, CS) else CS(x.real, x.imag) if isinstance(x, complex) else CS(x, 0)

    def _b(f):
        def op(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            return f(self, CS.of(o))
        return op

    __add__ = __radd__ = _b(lambda a, b: CS(a.real + b.real, a.imag + b.imag))
    __sub__ = _b(lambda a, b: CS(a.real - b.real, a.imag - b.imag))
    __rsub__ = _b(lambda a, b: CS(b.real - a.real, b.imag - a.imag))
    __mul__ = __rmul__ = _b(lambda a, b: CS(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real))

    def _inv(self):
        n = self.real * self.real + self.imag * self.imag
        return CS(self.real / n, -self.imag / n)

    __truediv__ = _b(lambda a, b: CS(a.real / b.real, a.imag / b.real) if b.imag.t is tm.ZERO else a * b._inv())
    __rtruediv__ = _b(lambda a, b: b * a._inv())

    def __neg__(self):
        return CS(-self.real, -self.imag)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return gufunc(ufunc, method, inputs, kw)

    def conjugate(self):
        return CS(self.real, -self.imag)

    def __deepcopy__(self, memo):
        return self


def wofz(z):
    z = CS.of(z)
    a, b = term(z.real), term(z.imag)
    return CS(S(tm.fn('wofz_re', a, b)), S(tm.fn('wofz_im', a, b)))


def isdat(x):
    return (isinstance(x, S) and x.t.dat) or (isinstance(x, SBool) and cdat(x.c)) or \
        (isinstance(x, CS) and (isdat(x.real) or isdat(x.imag)))


def _raw(x):
    return x.view(np.ndarray) if isinstance(x, GA) else x


def ga(raw, dax=None):
    """ndarray of objects -> GA (0-d -> the element)"""
    if not isinstance(raw, np.ndarray):
        return raw
    if raw.ndim == 0:
        return raw.item()
    r = raw.view(GA)
    r.dax = dax
    return r


def obj(x):
    """plain object ndarray of x (numbers exact)"""
    x = _raw(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        r = np.empty(x.shape, dtype=object)
        if x.dtype.kind == 'f':
            r.ravel()[:] = 0
            rf = r.reshape(-1)
            for i, v in enumerate(x.reshape(-1)):
                rf[i] = sym.wrap(float(v))
            return r
        rf = r.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            rf[i] = v.item()
        return r
    r = np.empty((), dtype=object)
    r[()] = x if not isinstance(x, GLen) else S(tm.NVAR)
    return r


def shadow(x):
    if isinstance(x, GA) and x.dax is not None:
        sh = list(np.ndarray.shape.__get__(x))
        sh[x.dax] = BIG
        return np.broadcast_to(np.int8(0), sh)
    if isinstance(x, np.ndarray):
        return np.broadcast_to(np.int8(0), x.shape)
    return np.int8(0)


def findax(sh):
    r = None
    for i, n in enumerate(sh):
        if n == BIG:
            if r is not None:
                raise Unsupported('two data axes')
            r = i
        elif n >= BIG - 11:
            raise Unsupported('data axis merged with another one')
    return r


def rshape(x):
    return np.ndarray.shape.__get__(x)


# ------------------------------------------------------------------ scalar operations
def _b2(f):
    return lambda a, b: f(_n(a), _n(b))


def _n(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, GLen):
        return S(tm.NVAR)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, float) and math.isfinite(x):
        return S(tm.const(Fr(repr(float(x)))))
    if isinstance(x, complex):
        return CS.of(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


def s_div(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, int):
        a = S(tm.const(a))
    if isinstance(b, (int, S)) and not isinstance(b, bool):
        bt = term(b)
        if bt is tm.ZERO:
            at = term(a)
            if at is not None and at.op == 'c':
                return float('nan') if at.a == 0 else math.copysign(math.inf, at.a)
            return float('nan')       # +-inf or nan in numpy
    return a / b


def s_pow(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        a = S(tm.const(a))
    if isinstance(a, (int, S)) and isinstance(b, (int, S)):
        at, bt = term(a), term(b)
        if at is tm.ZERO and bt.op == 'c' and bt.a < 0:
            return math.inf
        if isinstance(a, S) or isinstance(b, S):
            return S(sym._powt(at, bt))
    return a ** b


def s_lt(a, b): return _n(a) < _n(b)
def s_le(a, b): return _n(a) <= _n(b)
def s_gt(a, b): return _n(a) > _n(b)
def s_ge(a, b): return _n(a) >= _n(b)


def s_eq(a, b):
    r = _n(a) == _n(b)
    return False if r is NotImplemented else r


def s_ne(a, b):
    r = s_eq(a, b)
    return mkbool(sym.cnot(cond(r)))


def s_and(a, b): return mkbool(sym.cand(cond(a), cond(b)))
def s_or(a, b): return mkbool(sym.cor(cond(a), cond(b)))
def s_not(a): return mkbool(sym.cnot(cond(a)))


def s_xor(a, b):
    a, b = cond(a), cond(b)
    return mkbool(sym.cor(sym.cand(a, sym.cnot(b)), sym.cand(sym.cnot(a), b)))


def s_isfinite(a):
    return not (isinstance(a, (float, np.floating)) and not math.isfinite(a))


def s_isnan(a):
    return isinstance(a, (float, np.floating)) and math.isnan(a)


def s_isinf(a):
    return isinstance(a, (float, np.floating)) and math.isinf(a)


def s_abs(a):
    a = _n(a)
    if isinstance(a, CS):
        return sym.u_sqrt(a.real * a.real + a.imag * a.imag)
    return abs(a) if isinstance(a, int) else sym.u_abs(a)


def s_real(a): return a.real if isinstance(a, (CS, complex)) else a
def s_imag(a): return a.imag if isinstance(a, (CS, complex)) else 0


def s_where(c, a, b):
    c = cond(c)
    if c is True:
        return a
    if c is False:
        return b
    ta, tb = term(a), term(b)
    if cdat(c) and ta is not None and tb is not None:
        return S(tm.ite(c, ta, tb))
    return a if engine().decide(c) else b


def s_rint(a):
    t = term(a)
    if t is None:
        return a
    if t.op == 'c':
        return S(tm.const(round(t.a)))
    return S(tm.fn('round', t))


def s_logaddexp(a, b):
    if sym._inf(a) and a < 0:
        return b
    if sym._inf(b) and b < 0:
        return a
    return sym.u_log(sym.u_exp(a) + sym.u_exp(b))


U2 = {
    'add': _b2(operator.add), 'subtract': _b2(operator.sub), 'multiply': _b2(operator.mul),
    'divide': s_div, 'true_divide': s_div, 'power': s_pow, 'float_power': s_pow,
    'maximum': _b2(sym.u_max), 'minimum': _b2(sym.u_min), 'fmax': _b2(sym.u_max), 'fmin': _b2(sym.u_min),
    'arctan2': sym.u_arctan2, 'hypot': lambda a, b: sym.u_sqrt(_n(a) * _n(a) + _n(b) * _n(b)),
    'copysign': sym.u_copysign, 'remainder': _b2(operator.mod), 'mod': _b2(operator.mod),
    'floor_divide': _b2(operator.floordiv), 'logaddexp': s_logaddexp,
    'less': s_lt, 'less_equal': s_le, 'greater': s_gt, 'greater_equal': s_ge, 'equal': s_eq, 'not_equal': s_ne,
    'logical_and': s_and, 'logical_or': s_or, 'bitwise_and': s_and, 'bitwise_or': s_or, 'logical_xor': s_xor, 'bitwise_xor': s_xor,
}
U1 = {
    'negative': lambda a: -_n(a), 'positive': lambda a: a, 'absolute': s_abs, 'fabs': s_abs, 'sqrt': sym.u_sqrt,
    'square': lambda a: _n(a) * _n(a), 'exp': sym.u_exp, 'log': sym.u_log,
    'log10': lambda a: sym.u_log(a) / sym.u_log(10), 'log2': lambda a: sym.u_log(a) / sym.u_log(2),
    'log1p': lambda a: sym.u_log(1 + _n(a)), 'expm1': lambda a: sym.u_exp(a) - 1,
    'sin': sym.u_sin, 'cos': sym.u_cos, 'tan': sym.u_tan, 'arctan': sym.u_arctan, 'arcsin': sym.u_arcsin, 'arccos': sym.u_arccos,
    'sinh': sym.u_sinh, 'cosh': sym.u_cosh, 'tanh': sym.u_tanh, 'floor': sym.u_floor, 'ceil': sym.u_ceil,
    'sign': sym.u_sign, 'isfinite': s_isfinite, 'isnan': s_isnan, 'isinf': s_isinf, 'conjugate': lambda a: a.conjugate() if isinstance(a, (CS, complex)) else a,
    'reciprocal': lambda a: s_div(1, a), 'logical_not': s_not, 'invert': s_not, 'rint': s_rint, 'trunc': lambda a: s_fix(a),
    'deg2rad': lambda a: _n(a) * S(tm.PI) / 180, 'rad2deg': lambda a: _n(a) * 180 / S(tm.PI),
    'radians': lambda a: _n(a) * S(tm.PI) / 180, 'degrees': lambda a: _n(a) * 180 / S(tm.PI),
    'cbrt': lambda a: S(tm.powr(term(a), Fr(1, 3))),
}


def s_fix(a):
    t = term(a)
    if t is not None and t.op == 'c':
        return S(tm.const(math.trunc(t.a)))
    return sym.u_floor(a) if bool(_n(a) >= 0) else sym.u_ceil(a)


REDUCE = {'add': (U2['add'], 0), 'multiply': (U2['multiply'], 1), 'maximum': (U2['maximum'], None), 'minimum': (U2['minimum'], None),
          'logical_and': (s_and, True), 'logical_or': (s_or, False), 'logaddexp': (s_logaddexp, -math.inf)}


def align(arrs):
    """common data axis, counted from the right; checks lengths"""
    pos = None
    for a in arrs:
        if isinstance(a, GA) and a.dax is not None:
            p = a.dax - a.ndim
            if pos is not None and p != pos:
                raise Unsupported('two data axes in one operation')
            pos = p
    if pos is not None:
        for a in arrs:
            if isinstance(a, np.ndarray) and not (isinstance(a, GA) and a.dax is not None) and a.ndim >= -pos and rshape(a)[pos] > 1:
                raise ValueError('operands could not be broadcast together: generic length with %d' % rshape(a)[pos])
    return pos


def cvt(x):
    """list arguments -> arrays"""
    if isinstance(x, (list, tuple)):
        return mkarray(x)
    return x


def apply_el(f, inputs):
    inputs = [cvt(x) for x in inputs]
    pos = align(inputs)
    if not any(isinstance(x, np.ndarray) for x in inputs):
        return f(*[_n0(x) for x in inputs])
    raws = [obj(x) for x in inputs]
    n = len(raws)
    if pos is not None:
        for x, w in zip(inputs, raws):
            if getattr(x, 'dax', None) is None and any(isdat(v) for v in (w.ravel() if isinstance(w, np.ndarray) else (w,))):
                raise Unsupported('value of one data point combined with all of them')
    r = np.frompyfunc(f, n, 1)(*raws)
    if not isinstance(r, np.ndarray):
        return r
    if r.dtype != object:
        r = r.astype(object)
    return ga(r, None if pos is None else r.ndim + pos)


def _n0(x):
    return S(tm.NVAR) if isinstance(x, GLen) else x


def gufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    if method == '__call__':
        f = U1.get(name) if ufunc.nin == 1 else U2.get(name)
        if f is None and ufunc.nin == 1 and name in SPECIAL1:
            f = SPECIAL1[name]
        if f is None:
            raise Unsupported('ufunc %s' % name)
        r = apply_el(f, inputs)
        if out is not None:
            o = out[0]
            if where is not True:
                r = apply_el(s_where, (where, r, o))
            assign(o, r)
            return o
        if where is not True:
            raise Unsupported('ufunc where')
        return r
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        return reduce_(name, inputs[0], axis, kw.pop('keepdims', False))
    if method == 'accumulate':
        return accumulate(name, inputs[0], kw.pop('axis', 0))
    if method == 'outer':
        a, b = [mkarray(x) for x in inputs]
        if isinstance(b, GA) and b.dax is not None:
            raise Unsupported('outer with data on the right')
        a2 = ga(obj(a).reshape(rshape(a) + (1,) * b.ndim), getattr(a, 'dax', None))
        return gufunc(ufunc, '__call__', (a2, b), {})
    raise Unsupported('ufunc method %s' % method)


def assign(o, r):
    if isinstance(o, GA):
        o[...] = r
    elif o.dtype == object:
        o[...] = obj(r)
    else:
        if isinstance(r, np.ndarray):
            v = obj(r)
            ok = all(not isinstance(x, (S, SBool)) or (isinstance(x, S) and x.isconst()) for x in v.ravel())
        else:
            ok = not isinstance(r, (S, SBool)) or (isinstance(r, S) and r.isconst())
        if not ok:
            raise Unsupported('symbolic value stored in a native array')
        if o.dtype.kind in 'iub':
            raise TypeError("Cannot cast ufunc output from float64 to %s" % o.dtype)
        o[...] = np.array(obj(r), dtype=o.dtype)


def dsum(x):
    if engine_or_none() is not None and engine().datafork:
        raise Unsupported('sum over data behind a branch on a single data point')
    t = term(x)
    if t is None:
        return x
    return S(tm.mksum(t))


def engine_or_none():
    return sym._eng[0]


def dext(name, x):
    """extremum over the data axis"""
    if name == 'logaddexp':
        return sym.u_log(dsum(sym.u_exp(x)))
    if name in ('logical_and', 'logical_or'):
        c = cond(x)
        if c is True or c is False or not cdat(c):
            return mkbool(c)
        return dany(c) if name == 'logical_or' else not dany(sym.cnot(c))
    t = term(x)
    if t is None or not t.dat:
        return x
    if name == 'multiply':
        raise Unsupported('product over the data axis')
    r = tm.fn('d' + name, t)
    engine().assume(sym.cmp_('<=' if name == 'maximum' else '>=', t, r))
    return S(r)


def dany(c):
    """exists a data point with c"""
    e = engine()
    k = ('any', c)
    if k in e.known:
        return e.known[k]
    if e.known.get(c) is False:
        r = False
    elif e.known.get(c) is True:
        r = True
    else:
        nc = sym.cnot(c)
        if sym.check_sat(e.pc + [c]) == 'unsat':
            r = False
        else:
            r = e.choose(2) == 0
            if not r:
                e.assume(nc)
    e.known[k] = r
    return r


def reduce_(name, a, axis=None, keepdims=False):
    a = mkarray(a)
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    f, ini = REDUCE[name] if name in REDUCE else (None, None)
    if f is None:
        raise Unsupported('reduce ' + name)
    dax = getattr(a, 'dax', None)
    raw = obj(a)
    if axis is None:
        axes = list(range(raw.ndim))
    else:
        axes = [int(x) % raw.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    for ax in sorted(axes, reverse=True):
        if ax == dax:
            g = dsum if name == 'add' else (lambda x: dext(name, x))
            tk = raw.take(0, axis=ax) if raw.shape[ax] else None
            r = None if tk is None else g(tk) if not isinstance(tk, np.ndarray) else np.frompyfunc(g, 1, 1)(tk)
            if r is None:
                raise Unsupported('reduction over a masked data axis')
            if not isinstance(r, np.ndarray):
                q = np.empty((), dtype=object); q[()] = r; r = q
            raw = r
            dax = None
        else:
            n = raw.shape[ax]
            sub = [raw.take(i, axis=ax) for i in range(n)]
            if not sub:
                if ini is None:
                    raise ValueError('zero-size array to reduction operation')
                sh = raw.shape[:ax] + raw.shape[ax + 1:]
                r = np.empty(sh, dtype=object)
                r[...] = ini if name in ('logical_and', 'logical_or', 'logaddexp') else S(tm.const(ini))
            else:
                r = sub[0]
                if name == 'add' and raw.ndim == 1:
                    ts = [term(_n(x)) for x in raw]
                    if all(t is not None for t in ts):
                        r = S(tm.add(*ts))
                    else:
                        for x in sub[1:]:
                            r = f(r, x)
                else:
                    ff = np.frompyfunc(f, 2, 1)
                    for x in sub[1:]:
                        r = ff(r, x) if isinstance(r, np.ndarray) else f(r, x)
                if not isinstance(r, np.ndarray):
                    q = np.empty((), dtype=object); q[()] = r; r = q
            raw = r
            if dax is not None and ax < dax:
                dax -= 1
    if keepdims:
        sh = list(rshape(a))
        for ax in axes:
            sh[ax] = 1
        return ga(raw.reshape(sh), getattr(a, 'dax', None) if getattr(a, 'dax', None) not in axes else None)
    return ga(raw, dax)


def accumulate(name, a, axis):
    a = mkarray(a)
    if axis is None:
        if a.ndim > 1:
            raise Unsupported('flat accumulate')
        axis = 0
    axis %= a.ndim
    if axis == getattr(a, 'dax', None):
        raise Unsupported('accumulate over data')
    raw = obj(a).copy()
    f = np.frompyfunc(REDUCE[name][0], 2, 1)
    m = np.moveaxis(raw, axis, 0)
    for i in range(1, m.shape[0]):
        m[i] = f(m[i - 1], m[i])
    return ga(raw, getattr(a, 'dax', None))


# ------------------------------------------------------------------ construction
def shp(s):
    """shape argument -> (raw shape, dax)"""
    if isinstance(s, (int, np.integer, S)):
        s = (s,)
    r, dax = [], None
    for i, n in enumerate(s):
        if isinstance(n, GLen) or (isinstance(n, S) and n.t is tm.NVAR):
            if dax is not None:
                raise Unsupported('two data axes')
            dax = i
            r.append(0 if isinstance(n, sym.GLen0) else 1)
        elif isinstance(n, S):
            if not n.isconst():
                raise Unsupported('symbolic shape')
            r.append(operator.index(n))
        else:
            r.append(int(n))
    return tuple(r), dax


def full(shape, v):
    sh, dax = shp(shape)
    r = np.empty(sh, dtype=object)
    r[...] = v
    return r.view(GA)._sd(dax)


def mkarray(x, copy=False):
    """numpy.asarray for symbolic content; native integer and bool arrays stay native"""
    if isinstance(x, GA):
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            return ga_keep(obj(x))
        if x.dtype == object:
            return ga_keep(x.copy() if copy else x)
        return x.copy() if copy else x
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, np.ndarray) or isinstance(e, (list, tuple)) for e in x):
            els = [mkarray(e) for e in x]
            if all(isinstance(e, np.ndarray) and e.dtype != object for e in els) or \
                    all((isinstance(e, np.ndarray) and e.dtype.kind in 'iub') or isinstance(e, (int, np.integer)) for e in els):
                return np.array(els)
            arrs = [e if isinstance(e, np.ndarray) else obj(e) for e in els]
            nd = {a.ndim for a in arrs}
            if len(nd) > 1 or len({shadow(a).shape for a in arrs}) > 1:
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            dax = findax(np.stack([shadow(a) for a in arrs]).shape)
            r = np.stack([obj(a) for a in arrs])
            return ga_keep(r, dax)
        if all(isinstance(e, (bool, np.bool_)) for e in x) and len(x):
            return np.array(x)
        if all(isinstance(e, (int, np.integer)) and not isinstance(e, GLen) for e in x) and len(x):
            return np.array(x)
        if any(isinstance(e, str) for e in x) or not all(isnum(e) or isinstance(e, (S, SBool, CS, complex)) for e in x):
            r = np.empty(len(x), dtype=object)
            for i, e in enumerate(x):
                r[i] = e
            if any(isdat(e) for e in x):
                raise Unsupported('array of data elements')
            return r if any(isinstance(e, str) or e is None or not isnum(e) for e in x) else r
        r = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            if isdat(e):
                raise Unsupported('array of data elements')
            r[i] = _n(e) if isinstance(e, (float, GLen, complex)) else e
        return ga_keep(r)
    if isinstance(x, (float, np.floating)):
        return sym.wrap(float(x))
    return x


def ga_keep(raw, dax=None):
    r = raw.view(GA)
    r.dax = dax
    return r


def tofloat(x):
    """native integers -> exact reals, elementwise"""
    x = mkarray(x)
    if isinstance(x, np.ndarray):
        if isinstance(x, GA):
            raw = obj(x)
            if any(isinstance(v, (int, bool)) for v in raw.ravel()):
                return ga_keep(np.frompyfunc(_w, 1, 1)(raw), x.dax) if raw.size else x
            return x
        raw = obj(x)
        r = np.empty(raw.shape, dtype=object)
        rf = r.reshape(-1)
        for i, v in enumerate(raw.reshape(-1)):
            rf[i] = _w(v)
        return ga_keep(r)
    return _w(x)


def _w(v):
    return S(tm.const(int(v))) if isinstance(v, (int, np.integer, np.bool_)) and not isinstance(v, GLen) else (S(tm.NVAR) if isinstance(v, GLen) else v)


# ------------------------------------------------------------------ the array class
class GA(np.ndarray):
    dax = None

    def __array_finalize__(self, o):
        self.dax = None

    def _sd(self, dax):
        self.dax = dax
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return gufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.afunc(func, args, kw)

    def __reduce__(self):
        raise Unsupported('pickling')

    def __deepcopy__(self, memo):
        return self.copy()

    # --- shape information
    @property
    def shape(self):
        s = rshape(self)
        if self.dax is None:
            return s
        return tuple((GLen() if s[i] else sym.masklen()) if i == self.dax else n for i, n in enumerate(s))

    @shape.setter
    def shape(self, s):
        raise Unsupported('shape assignment')

    @property
    def size(self):
        s = 1
        for n in self.shape:
            s = n * s if not (isinstance(s, int) and s == 1 and not isinstance(s, GLen)) else n
        return s

    def __len__(self):
        return rshape(self)[0]

    @property
    def T(self):
        return self.transpose()

    def glen(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    # --- structural methods
    def _struct(self, f):
        return ga(f(_raw(self)), findax(f(shadow(self)).shape) if self.dax is not None else None)

    def copy(self, order='C'):
        return _raw(self).copy().view(GA)._sd(self.dax)

    __copy__ = copy

    def transpose(self, *ax):
        return self._struct(lambda a: a.transpose(*ax))

    def swapaxes(self, a, b):
        return self._struct(lambda x: x.swapaxes(a, b))

    def reshape(self, *sh, **kw):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if self.dax is None:
            for n in sh:
                if isinstance(n, GLen):
                    raise Unsupported('reshape to the data length')
            return ga_keep(_raw(self).reshape(tuple(operator.index(n) for n in sh), **kw))
        big = tuple(BIG if isinstance(n, GLen) or (isinstance(n, S) and n.t is tm.NVAR) else operator.index(_cs(n)) for n in sh)
        s2 = shadow(self).reshape(big)
        dax = findax(s2.shape)
        # order of elements: data axis may move only over axes of size 1
        pre = int(np.prod([n for n in rshape(self)[:self.dax]], dtype=int))
        pre2 = int(np.prod([n for n in s2.shape[:dax]], dtype=int))
        if pre != pre2:
            raise Unsupported('reshape across the data axis')
        raw = _raw(self).reshape(tuple(1 if i == dax else n for i, n in enumerate(s2.shape)))
        return ga_keep(raw, dax)

    def flatten(self, order='C'):
        return self.reshape(-1).copy() if order == 'C' else self.transpose().reshape(-1).copy()

    def ravel(self, order='C'):
        return self.reshape(-1)

    def squeeze(self, axis=None):
        if axis is None and self.dax is not None:
            return self._struct(lambda a: a.squeeze(tuple(i for i, n in enumerate(a.shape) if n == 1 and i != self.dax)))
        return self._struct(lambda a: a.squeeze(axis))

    def astype(self, dtype, *a, **kw):
        from . import npshim
        k = npshim.dkind(dtype)
        if k == 'f':
            return tofloat(self.copy())
        if k == 'b':
            return force(self)
        if k == 'i':
            raw = obj(self)
            r = np.empty(raw.shape, dtype=int)
            for i, v in np.ndenumerate(raw):
                if isinstance(v, S) and not v.isconst():
                    raise Unsupported('astype(int) of symbolic')
                if isinstance(v, SBool):
                    v = bool(v)
                r[i] = int(v)
            return r
        raise Unsupported('astype %s' % dtype)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if self.dax is not None:
            raise Unsupported('tolist over data')
        return _raw(self).tolist()

    def item(self, *a):
        if self.dax is not None and isdat(_raw(self).item(*a)):
            raise Unsupported('item of data')
        return _raw(self).item(*a)

    # --- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('add', self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('multiply', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('maximum', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('minimum', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        r = reduce_('logical_or', self, axis, keepdims)
        return r if isinstance(r, np.ndarray) else mkbool(cond(r))

    def all(self, axis=None, out=None, keepdims=False, **kw):
        r = reduce_('logical_and', self, axis, keepdims)
        return r if isinstance(r, np.ndarray) else mkbool(cond(r))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else self.shape[axis]
        return reduce_('add', self, axis, keepdims) / (n._s() if isinstance(n, GLen) else n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **kw):
        n = self.size if axis is None else self.shape[axis]
        n = n._s() if isinstance(n, GLen) else n
        d = self - self.mean(axis, keepdims=True)
        return (d * d).sum(axis) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **kw):
        return np.sqrt(self.var(axis, ddof=ddof)) if axis is not None else sym.u_sqrt(self.var(ddof=ddof))

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate('add', self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate('multiply', self, axis)

    def dot(self, o, out=None):
        return dot(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def argmax(self, axis=None, **kw):
        return argext(self, axis, s_gt)

    def argmin(self, axis=None, **kw):
        return argext(self, axis, s_lt)

    def argsort(self, axis=-1, **kw):
        if self.ndim != 1 or self.dax is not None:
            raise Unsupported('argsort')
        import functools
        raw = list(_raw(self))
        return np.array(sorted(range(len(raw)), key=functools.cmp_to_key(
            lambda i, j: -1 if bool(_n(raw[i]) < _n(raw[j])) else (1 if bool(_n(raw[i]) > _n(raw[j])) else 0))), dtype=int)

    def sort(self, axis=-1, **kw):
        k = self.argsort()
        raw = _raw(self)
        raw[...] = raw[k]

    def nonzero(self):
        return nonzero(self)

    @property
    def real(self):
        return apply_el(s_real, (self,))

    @property
    def imag(self):
        return apply_el(s_imag, (self,))

    def conj(self):
        return apply_el(U1['conjugate'], (self,))

    conjugate = conj

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.dax == 0:
            raise Unsupported('iteration over the data')
        for i in range(rshape(self)[0]):
            yield self[i]

    def __bool__(self):
        if np.ndarray.size.__get__(self) != 1 or self.dax is not None:
            if self.dax is None:
                raise ValueError('The truth value of an array with more than one element is ambiguous.')
            raise Unsupported('truth of data array')
        return bool(mkbool(cond(_raw(self).item())))

    def __float__(self):
        return float(_raw(self).item())

    def __int__(self):
        return int(_raw(self).item())

    def __index__(self):
        return operator.index(_raw(self).item())

    def __contains__(self, v):
        return bool(apply_el(s_eq, (self, v)).any())

    def __repr__(self):
        return 'GA(%s, dax=%s)' % (np.array2string(_raw(self), max_line_width=200), self.dax)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # comparisons must keep SBool elements
    def __lt__(self, o): return apply_el(s_lt, (self, o))
    def __le__(self, o): return apply_el(s_le, (self, o))
    def __gt__(self, o): return apply_el(s_gt, (self, o))
    def __ge__(self, o): return apply_el(s_ge, (self, o))
    def __eq__(self, o): return False if o is None else apply_el(s_eq, (self, o))
    def __ne__(self, o): return True if o is None else apply_el(s_ne, (self, o))
    __hash__ = None

    # --- indexing
    def _key(self, key):
        """per-axis key without generic parts -> (raw key, shadow key)"""
        if not isinstance(key, tuple):
            key = (key,)
        nd = self.ndim
        # masks with several dimensions
        used = 0
        ks = []
        for k in key:
            if isinstance(k, list):
                k = mkarray(k)
                if isinstance(k, np.ndarray) and k.size == 0:
                    k = np.array([], dtype=int)
            if isinstance(k, GA) and np.ndarray.size.__get__(k) == 0 and k.dax is None:
                k = np.zeros(rshape(k), dtype=int)
            ks.append(k)
            if k is None:
                pass
            elif k is Ellipsis:
                pass
            elif isinstance(k, np.ndarray) and ismask(k):
                used += k.ndim
            else:
                used += 1
        rk, sk, ax = [], [], 0
        for k in ks:
            if isinstance(k, tuple):
                k = np.array(k)
            if k is None:
                rk.append(None); sk.append(None)
            elif k is Ellipsis:
                n = nd - used
                rk.append(Ellipsis); sk.append(Ellipsis)
                ax += n
            elif isinstance(k, np.ndarray) and ismask(k):
                if k.ndim > 1:
                    if len(ks) > 1:
                        raise Unsupported('mixed multi-dimensional mask')
                    m = force(k)
                    return m, None
                m = force(k)
                if ax == self.dax:
                    if isinstance(k, GA) and k.dax is None and not (m.size == 1 and m[0]):
                        raise Unsupported('fixed mask on the data axis')
                    rk.append(m)
                    sk.append(np.ones(BIG, dtype=bool))
                else:
                    if isinstance(k, GA) and k.dax is not None:
                        raise Unsupported('data mask on another axis')
                    rk.append(m); sk.append(m)
                ax += 1
            elif isinstance(k, slice):
                if ax == self.dax:
                    if k.step not in (None, 1) or k.start not in (None, 0) or not (k.stop is None or isinstance(k.stop, GLen) or (isinstance(k.stop, S) and k.stop.t is tm.NVAR)):
                        raise Unsupported('slice of the data')
                    rk.append(slice(None)); sk.append(slice(None))
                else:
                    q = slice(*[None if v is None else operator.index(_cs(v)) for v in (k.start, k.stop, k.step)])
                    rk.append(q); sk.append(q)
                ax += 1
            elif isinstance(k, np.ndarray):
                if isinstance(k, GA) and k.dax is not None:
                    if ax != self.dax or not getattr(k, 'gidx', False):
                        raise Unsupported('index array made from data')
                    rk.append(np.zeros(rshape(k), dtype=int)); sk.append(np.zeros(BIG, dtype=int))
                else:
                    if ax == self.dax:
                        if getattr(k, 'gidx', None) is not None or k.size == 0:
                            rk.append(_raw(k).astype(int)); sk.append(np.zeros(BIG, dtype=int))
                        else:
                            raise Unsupported('fixed index array on the data axis')
                    else:
                        q = k if k.dtype != object else np.array([operator.index(_cs(v)) for v in _raw(k).ravel()], dtype=int).reshape(rshape(k))
                        rk.append(_raw(q)); sk.append(_raw(q))
                ax += 1
            else:
                if isinstance(k, (bool, np.bool_, SBool)):
                    raise Unsupported('scalar bool index')
                if isinstance(k, GIdx):
                    if ax != self.dax:
                        raise Unsupported('data index on another axis')
                    rk.append(0); sk.append(0)
                    ax += 1
                    continue
                if ax == self.dax:
                    raise Unsupported('single data point')
                q = operator.index(_cs(k))
                rk.append(q); sk.append(q)
                ax += 1
        return tuple(rk), tuple(sk)

    def __getitem__(self, key):
        rk, sk = self._key(key)
        r = _raw(self)[rk]
        if not isinstance(r, np.ndarray):
            return r
        if isinstance(r, GA) and isinstance(rk, tuple) and len(rk) == self.ndim and all(isinstance(q, int) for q in rk):
            return r                       # an array held as an element
        if r.ndim == 0 and r.dtype == object and not isinstance(rk, np.ndarray):
            return r.view(GA) if Ellipsis in rk else r.item()
        dax = None
        if self.dax is not None and sk is not None:
            dax = findax(shadow(self)[sk].shape)
        return ga_keep(r, dax)

    def __setitem__(self, key, v):
        rk, sk = self._key(key)
        if isinstance(v, (list, tuple)):
            v = mkarray(v)
        if isinstance(v, GA) and isinstance(rk, tuple) and len(rk) == self.ndim and all(isinstance(q, int) for q in rk) and (getattr(self, 'hetero', False) or any(isinstance(q, GA) for q in _raw(self).ravel())):
            _raw(self)[rk] = v
            return
        if isinstance(v, np.ndarray):
            vd = getattr(v, 'dax', None)
            if sk is not None:
                tsh = shadow(self)[sk].shape
                td = findax(tsh) if self.dax is not None else None
                if vd is not None:
                    if td is None:
                        if any(isdat(x) for x in _raw(v).ravel()):
                            raise Unsupported('data values stored off the data axis')
                    elif td - len(tsh) != vd - v.ndim:
                        raise ValueError('could not broadcast input array')
                elif td is not None and v.ndim >= len(tsh) - td and rshape(v)[td - len(tsh)] > 1:
                    raise ValueError('could not broadcast input array: generic length')
            _raw(self)[rk] = obj(v)
        else:
            if isdat(v) and self.dax is None:
                raise Unsupported('data value stored off the data axis')
            if isinstance(v, GLen):
                v = S(tm.NVAR)
            elif isinstance(v, (float, np.floating)):
                v = sym.wrap(float(v))
            elif isinstance(v, (bool, np.bool_)):
                v = bool(v)
            elif isinstance(v, (int, np.integer)):
                v = S(tm.const(int(v)))
            raw = _raw(self)
            if isinstance(rk, tuple) and len(rk) == raw.ndim and all(isinstance(k, int) for k in rk):
                raw[rk] = v
            else:
                q = np.empty((), dtype=object); q[()] = v
                raw[rk] = q


def _cs(v):
    if isinstance(v, S) and not (v.isconst()):
        raise Unsupported('symbolic index')
    return v


def ismask(k):
    if k.dtype == bool:
        return True
    if k.dtype == object:
        f = _raw(k).ravel()
        return f.size > 0 and all(isinstance(x, (bool, np.bool_, SBool)) for x in f)
    return False


def force(k):
    """decide a lazy mask"""
    if k.dtype == bool:
        return _raw(k)
    raw = obj(k)
    r = np.empty(raw.shape, dtype=bool)
    for i, v in np.ndenumerate(raw):
        r[i] = bool(mkbool(cond(v)))
    return r


def nonzero(c):
    c = mkarray(c)
    if not isinstance(c, GA):
        return np.nonzero(c)
    m = force(c)
    r = np.nonzero(m)
    out = []
    for ax, ix in enumerate(r):
        if ax == c.dax:
            g = ix.view(IX)
            g.gidx = True
            out.append(g)
        else:
            out.append(ix)
    if c.dax is not None and m.ndim > 1:
        raise Unsupported('nonzero of a data matrix')
    return tuple(out)


class IX(np.ndarray):
    """index array selecting generic data points"""
    gidx = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        raise Unsupported('arithmetic on data indices')

    @property
    def size(self):
        return GLen() if np.ndarray.size.__get__(self) else sym.masklen()

    @property
    def shape(self):
        return (self.size,)

    def __array_finalize__(self, o):
        self.gidx = getattr(o, 'gidx', None)


def argext(a, axis, better):
    a = mkarray(a)
    if axis is not None and a.ndim > 1 or getattr(a, 'dax', None) is not None:
        raise Unsupported('argmax')
    raw = list(obj(a).ravel())
    k = 0
    for i in range(1, len(raw)):
        if bool(better(raw[i], raw[k])):
            k = i
    return k


def fullIX():
    g = np.zeros(1, dtype=int).view(IX)
    g.gidx = True
    return g


class GIdx(int):
    """index of one generic data point (loop over the data)"""
    def _no(self, *a):
        raise Unsupported('arithmetic on the index of a data point')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __neg__ = __pow__ = _no
    __hash__ = int.__hash__


class GSeq(object):
    """something with one item per data point; only a for loop may consume it"""
    def __init__(self, item):
        self.item = item

    def __iter__(self):
        raise Unsupported('iteration over the data')


def isgseq(x):
    return isinstance(x, GSeq) or (isinstance(x, GA) and x.ndim > 0 and x.dax == 0)


def gitem(x):
    if isinstance(x, GSeq):
        return x.item
    if rshape(x)[0] == 0:
        raise Unsupported('loop over masked data')
    return x[GIdx(0)]


def forloop(it, carried):
    """iterator of a for statement: over the data one generic iteration is executed; the loader has checked
    that no name carries a value from one iteration to the next or out of the loop"""
    if isgseq(it):
        if carried:
            raise Unsupported('loop over the data carrying ' + carried)
        return iter([gitem(it)])
    return it


# ------------------------------------------------------------------ linear algebra
def dot(a, b):
    a, b = mkarray(a), mkarray(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0:
        return a * b
    return contract(a, a.ndim - 1, b, max(b.ndim - 2, 0))


def matmul(a, b):
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matmul nd')
    return dot(a, b)


def inner(a, b):
    a, b = mkarray(a), mkarray(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0:
        return a * b
    return contract(a, a.ndim - 1, b, b.ndim - 1)


def contract(a, i, b, j):
    da, db = getattr(a, 'dax', None), getattr(b, 'dax', None)
    ra, rb = np.moveaxis(obj(a), i, -1), np.moveaxis(obj(b), j, -1)
    if (da == i) != (db == j):
        raise ValueError('shapes not aligned: generic length')
    if ra.shape[-1] != rb.shape[-1]:
        raise ValueError('shapes not aligned')
    over = da == i and da is not None
    sa, sb = ra.shape[:-1], rb.shape[:-1]
    r = np.empty(sa + sb, dtype=object)
    for p in np.ndindex(*sa):
        for q in np.ndindex(*sb):
            s = [_n(x) * _n(y) for x, y in zip(ra[p], rb[q])]
            if over:
                if len(s) != 1:
                    raise Unsupported('masked data sum')
                r[p + q] = dsum(s[0])
            else:
                ts = [term(x) for x in s]
                if all(t is not None for t in ts):
                    r[p + q] = S(tm.add(*ts)) if ts else S(tm.ZERO)
                else:
                    t = 0
                    for x in s:
                        t = t + x
                    r[p + q] = t
    dax = None
    if not over:
        if da is not None and da != i:
            dax = da - (1 if i < da else 0)
        if db is not None and db != j:
            if dax is not None:
                raise Unsupported('two data axes')
            dax = len(sa) + db - (1 if j < db else 0)
    return ga(r, dax)


def _mat(a):
    a = mkarray(a)
    if getattr(a, 'dax', None) is not None:
        raise Unsupported('linear algebra on a data matrix')
    return np.frompyfunc(lambda x: term(_n(x)), 1, 1)(obj(a))


def det_t(m):
    n = m.shape[0]
    if n == 0:
        return tm.ONE
    if n == 1:
        return m[0, 0]
    r = []
    for j in range(n):
        if m[0, j] is tm.ZERO:
            continue
        mm = np.delete(m[1:], j, axis=1)
        r.append(tm.scale(tm.mul(m[0, j], det_t(mm)), -1 if j % 2 else 1))
    return tm.add(*r) if r else tm.ZERO


def allconst(m):
    return all(x.op == 'c' for x in m.ravel())


def csolve(m, b):
    """exact elimination on rational constants; None when singular"""
    n = m.shape[0]
    a = [[m[i, j].a for j in range(n)] + list(b[i]) for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        iv = 1 / a[c][c]
        a[c] = [v * iv if v else v for v in a[c]]
        for r in range(n):
            f = a[r][c]
            if r != c and f != 0:
                a[r] = [v - f * w if w else v for v, w in zip(a[r], a[c])]
    return [row[n:] for row in a]


def inv_t(m):
    n = m.shape[0]
    if n and allconst(m):
        s = csolve(m, [[Fr(int(i == j)) for j in range(n)] for i in range(n)])
        if s is None:
            raise np.linalg.LinAlgError('Singular matrix')
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                r[i, j] = tm.const(s[i][j])
        return r
    d = det_t(m)
    if d is tm.ZERO or (d.op != 'c' and not engine().decide(sym.cmp_('!=', d, tm.ZERO))):
        raise np.linalg.LinAlgError('Singular matrix')
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mm = np.delete(np.delete(m, j, axis=0), i, axis=1)
            r[i, j] = tm.scale(tm.div(det_t(mm), d), -1 if (i + j) % 2 else 1)
    return r


def wrapS(r):
    return ga_keep(np.frompyfunc(S, 1, 1)(r)) if r.size else ga_keep(r)


def linv(a):
    return wrapS(inv_t(_mat(a)))


def ldet(a):
    return S(det_t(_mat(a)))


def lsolve(a, b):
    m, v = _mat(a), None if getattr(mkarray(b), 'dax', None) is not None else _mat(b)
    if m.size and v is not None and allconst(m) and allconst(v):
        s = csolve(m, [[x.a for x in np.atleast_1d(row).ravel()] for row in v])
        if s is None:
            raise np.linalg.LinAlgError('Singular matrix')
        r = np.empty(v.shape, dtype=object)
        for i in range(v.shape[0]):
            if v.ndim == 1:
                r[i] = tm.const(s[i][0])
            else:
                for j in range(v.shape[1]):
                    r[i, j] = tm.const(s[i][j])
        return wrapS(r)
    return dot(linv(a), b)


def lqr(a, mode='reduced'):
    """Q R with Q^T Q = 1 and R upper triangular, by the Cholesky factor of the matrix of inner products; the sign of each row of R
    is a free choice of the library"""
    from . import npshim
    if not isinstance(a, npshim.DCat):
        a = mkarray(a)
    inn = npshim.catted(inner, -1, -1)
    ncol = a.shape[1]
    cols = [a[:, k] for k in range(ncol)]
    R = full((ncol, ncol), S(tm.ZERO))
    for k in range(ncol):
        for j in range(k + 1):
            g = inn(cols[j], cols[k])
            for i in range(j):
                g = g - R[i, j] * R[i, k]
            if j < k:
                R[j, k] = g / R[j, j]
            else:
                if not bool(g > 0):
                    raise np.linalg.LinAlgError('Singular matrix')
                R[k, k] = S(tm.powr(term(g), tm.HALF)) * (1 if engine().choose(2) == 0 else -1)
    Q = []
    for k in range(ncol):
        v = cols[k]
        for i in range(k):
            v = v - R[i, k] * Q[i]
        Q.append(v / R[k, k])
    if not ncol:
        q = a
    elif isinstance(a, npshim.DCat):
        q = npshim.DCat([mkarray([c.parts[i] for c in Q]).transpose() for i in range(len(a.parts))], -2)
    else:
        q = mkarray(Q).transpose()
    return q, R


SPECIAL1 = {
    'erf': sym.u_erf, 'erfc': sym.u_erfc, 'erfinv': sym.u_erfinv, 'gammaln': sym.u_gammaln, 'psi': sym.u_digamma, 'digamma': sym.u_digamma,
    'gamma': lambda a: S(tm.fn('gamma+', term(_n(a)))), 'wofz': wofz,
}
