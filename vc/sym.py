"""Symbolic scalars, conditions, path exploration."""
import math
from fractions import Fraction as Fr
import numpy as np
from . import terms as tm
from .terms import T, const, add, sub, mul, div, neg, scale, powr, fn

INF = float('inf')


class Unsupported(Exception):
    """the code left the subset this verifier translates"""


class PathEnd(BaseException):
    """the current path ends here (cut at a loop head, infeasible, ...)"""


# ------------------------------------------------------------------ conditions
def _normc(op, t):
    if t.op == 'c':
        a = t.a
        return {'<': a < 0, '<=': a <= 0, '==': a == 0, '!=': a != 0}[op]
    if op == '<=' or op == '<':
        if tm.is_pos(t):
            return False
        n = neg(t)
        if tm.is_pos(n):
            return True
        if op == '<=' and tm.is_nneg(n):
            return True
        if op == '<' and tm.is_nneg(t):
            return False
    else:
        if tm.is_pos(t) or tm.is_pos(neg(t)):
            return op == '!='
    k = None
    if t.op == '+':
        k = t.a[0][1]
    if k is not None and abs(k) != 1:
        t = scale(t, 1 / abs(k))
    if op in ('==', '!=') and t.op == '+' and t.a[0][1] < 0:
        t = neg(t)
    return (op, t)


def cmp_(op, a, b):
    if op == '>':
        return _normc('<', sub(b, a))
    if op == '>=':
        return _normc('<=', sub(b, a))
    return _normc(op, sub(a, b))


def cnot(c):
    if c is True or c is False:
        return not c
    if c[0] == 'and':
        return cor(*[cnot(x) for x in c[1]])
    if c[0] == 'or':
        return cand(*[cnot(x) for x in c[1]])
    if c[0] == '<':
        return _normc('<=', neg(c[1]))
    if c[0] == '<=':
        return _normc('<', neg(c[1]))
    return ('!=' if c[0] == '==' else '==', c[1])


def cand(*cs):
    r = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == 'and':
            r.extend(x for x in c[1] if x not in r)
        elif c not in r:
            r.append(c)
    if not r:
        return True
    return r[0] if len(r) == 1 else ('and', tuple(r))


def cor(*cs):
    r = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == 'or':
            r.extend(x for x in c[1] if x not in r)
        elif c not in r:
            r.append(c)
    if not r:
        return False
    return r[0] if len(r) == 1 else ('or', tuple(r))


def cterms(c):
    if c is True or c is False:
        return []
    if c[0] in ('and', 'or'):
        return [t for x in c[1] for t in cterms(x)]
    return [c[1]]


def catoms(c):
    if c is True or c is False:
        return []
    if c[0] in ('and', 'or'):
        return [t for x in c[1] for t in catoms(x)]
    return [c]


def cdat(c):
    return any(t.dat for t in cterms(c))


def cmap(c, f):
    if c is True or c is False:
        return c
    if c[0] == 'and':
        return cand(*[cmap(x, f) for x in c[1]])
    if c[0] == 'or':
        return cor(*[cmap(x, f) for x in c[1]])
    return _normc(c[0], f(c[1]))


def cevalf(c, ev):
    if c is True or c is False:
        return c
    if c[0] == 'and':
        r = True
        for x in c[1]:
            r = np.logical_and(r, cevalf(x, ev))
        return r
    if c[0] == 'or':
        r = False
        for x in c[1]:
            r = np.logical_or(r, cevalf(x, ev))
        return r
    v = ev(c[1])
    return {'<': lambda: v < 0, '<=': lambda: v <= 0, '==': lambda: v == 0, '!=': lambda: v != 0}[c[0]]()


# ------------------------------------------------------------------ scalars
def tofrac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fr(int(x))
    if isinstance(x, (int, np.integer)):
        return Fr(int(x))
    if isinstance(x, Fr):
        return x
    return Fr(repr(float(x)))


def isnum(x):
    return isinstance(x, (int, float, Fr, np.integer, np.floating, np.bool_))


def term(x):
    """term of anything number-like; None when it is not (inf, nan, other)"""
    if isinstance(x, S):
        return x.t
    if isinstance(x, SBool):
        return x.asterm()
    if type(x) is T:
        return x
    if isinstance(x, GLen):
        return tm.NVAR
    if isnum(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return None
        return const(tofrac(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item())
    return None


def wrap(x):
    """number -> S (inf and nan stay floats)"""
    if isinstance(x, (S, SBool)):
        return x
    t = term(x)
    if t is None:
        return x
    return S(t)


def _inf(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _bin(f, finf):
    def op(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if _inf(o):
            return finf(self, float(o))
        t = term(o)
        if t is None:
            return NotImplemented
        if f is _divt and t is tm.ZERO:
            at = self.t
            return float('nan') if at.op != 'c' or at.a == 0 else math.copysign(math.inf, at.a)
        return S(f(self.t, t))
    return op


def _sgn(s):
    return 1 if bool(SBool(cmp_('>', s.t, tm.ZERO))) else -1


def _powt(a, b):
    if b.op == 'c':
        if b.a < 0 and a.op == 'c' and a.a == 0:
            raise Unsupported('0 to a negative power')
        return powr(a, b.a)
    if a.op == 'c' and a.a == 0:
        return tm.ZERO
    return tm.power(a, b)


def _divt(a, b):
    if b is tm.ZERO:
        raise Unsupported('division by zero')
    return div(a, b)


def _modt(a, b):
    # a - b*floor(a/b)
    q = div(a, b)
    if q.op == 'c':
        return scale(b, q.a - math.floor(q.a)) if b.op != 'c' else const(a.a - b.a * math.floor(q.a))
    return sub(a, mul(b, tfloor(q)))


def tfloor(t):
    """floor, a number when the path decides it"""
    if t.op == 'c':
        return const(math.floor(t.a))
    if not t.dat and _eng[0] is not None:
        for n in (0, 1, -1, 2):
            c = cor(cmp_('<', t, const(n)), cmp_('>=', t, const(n + 1)))
            if c is not True and check_sat(engine().pc + [c], timeout=6000) == "unsat":
                return const(n)
    return fn('floor', t)


def _cmp(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if _inf(o):
            if math.isnan(o):
                return op == '!='
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        t = term(o)
        if t is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        c = cmp_(op, self.t, t)
        return c if c is True or c is False else SBool(c)
    return f


class S(object):
    """symbolic real"""
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__ = __radd__ = _bin(add, lambda s, o: o)
    __sub__ = _bin(sub, lambda s, o: -o)
    __rsub__ = _bin(lambda a, b: sub(b, a), lambda s, o: o)
    __mul__ = __rmul__ = _bin(mul, lambda s, o: _sgn(s) * o)
    __truediv__ = _bin(_divt, lambda s, o: S(tm.ZERO))
    __rtruediv__ = _bin(lambda a, b: _divt(b, a), lambda s, o: _sgn(s) * o)
    __pow__ = _bin(_powt, lambda s, o: (_ for _ in ()).throw(Unsupported('power inf')))
    __rpow__ = _bin(lambda a, b: _powt(b, a), lambda s, o: (_ for _ in ()).throw(Unsupported('inf power')))
    __mod__ = _bin(_modt, lambda s, o: s)
    __rmod__ = _bin(lambda a, b: _modt(b, a), None)
    __floordiv__ = _bin(lambda a, b: tfloor(div(a, b)), None)
    __rfloordiv__ = _bin(lambda a, b: tfloor(div(b, a)), None)
    __lt__, __le__, __gt__, __ge__ = _cmp('<'), _cmp('<='), _cmp('>'), _cmp('>=')
    __eq__, __ne__ = _cmp('=='), _cmp('!=')

    def __neg__(self):
        return S(neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return u_abs(self)

    def __hash__(self):
        return hash(('S', self.t.id))

    def __bool__(self):
        c = cmp_('!=', self.t, tm.ZERO)
        return c if c is True or c is False else bool(SBool(c))

    def isconst(self):
        return self.t.op == 'c'

    def __float__(self):
        if self.t.op == 'c':
            return float(self.t.a)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.t.op == 'c':
            return int(self.t.a)
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.t.op == 'c' and self.t.a.denominator == 1:
            return int(self.t.a)
        raise TypeError('symbolic value used as an index')

    def __round__(self, n=None):
        if self.t.op == 'c':
            return round(self.t.a) if n is None else S(const(round(self.t.a, n)))
        raise Unsupported('round of symbolic')

    def __floor__(self):
        return S(fn('floor', self.t))

    def __repr__(self):
        return 'S(%s)' % tm.show(self.t, 8)

    __str__ = __repr__

    def __format__(self, spec):
        if self.t.op == 'c':
            try:
                return format(float(self.t.a), spec)
            except ValueError:
                return str(self.t.a)
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # scalars behave like numpy scalars in a few places
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import garr
        return garr.gufunc(ufunc, method, inputs, kw)


class SBool(object):
    __slots__ = ('c',)
    __array_priority__ = 1000

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return engine().decide(self.c)

    def asterm(self):
        if self.c is True or self.c is False:
            return const(int(self.c))
        return tm.ite(self.c, tm.ONE, tm.ZERO)

    def __and__(self, o):
        c = cond(o)
        return mkbool(cand(self.c, c)) if c is not None else NotImplemented

    def __or__(self, o):
        c = cond(o)
        return mkbool(cor(self.c, c)) if c is not None else NotImplemented

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return mkbool(cnot(self.c))

    def _num(self):
        return S(self.asterm())

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __neg__(self):
        return -self._num()

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return self._num() == o

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return 'SBool(%s)' % tm.cshow(self.c)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import garr
        return garr.gufunc(ufunc, method, inputs, kw)


def mkbool(c):
    return c if c is True or c is False else SBool(c)


def cond(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, S):
        return cmp_('!=', x.t, tm.ZERO)
    if isnum(x):
        return bool(x)
    return None


class GLen(int):
    """length of the data axis: 1 when numpy asks, the symbol N in arithmetic"""
    def __new__(cls):
        return int.__new__(cls, 1)

    def _s(self):
        if engine().datafork:
            raise Unsupported('number of data points behind a branch on a single one')
        return S(tm.NVAR)

    def __add__(self, o): return self._s() + o
    def __radd__(self, o): return o + self._s()
    def __sub__(self, o): return self._s() - o
    def __rsub__(self, o): return o - self._s()
    def __mul__(self, o): return self._s() * o
    def __rmul__(self, o): return o * self._s()
    def __truediv__(self, o): return self._s() / o
    def __rtruediv__(self, o): return o / self._s()
    def __pow__(self, o): return self._s() ** o
    def __neg__(self): return -self._s()
    def __floordiv__(self, o): return self._s() // o
    def __lt__(self, o): return False if isinstance(o, GLen) or self._low(o, 1) else self._s() < o
    def __le__(self, o): return True if isinstance(o, GLen) else False if self._low(o, 0) else self._s() <= o
    def __gt__(self, o): return False if isinstance(o, GLen) else True if self._low(o, 0) else self._s() > o
    def __ge__(self, o): return True if isinstance(o, GLen) or self._low(o, 1) else self._s() >= o
    def __eq__(self, o): return True if isinstance(o, GLen) else False if self._low(o, 0) else self._s() == o
    def __ne__(self, o): return False if isinstance(o, GLen) else True if self._low(o, 0) else self._s() != o

    def _low(self, o, k):
        return isinstance(o, (int, np.integer)) and int(o) <= k
    def __hash__(self): return 1234567
    def __bool__(self): return True
    def __repr__(self): return 'N'
    def __format__(self, spec): return 'N'
    def __deepcopy__(self, memo): return self


class GLen0(GLen):
    """number of selected data points, known to be positive although the generic point is not among them"""
    def __new__(cls):
        return int.__new__(cls, 0)

    def _s(self):
        raise Unsupported('number of selected data points')

    def __eq__(self, o):
        if isinstance(o, (int, np.integer)) and not isinstance(o, GLen) and int(o) == 0:
            return False
        raise Unsupported('number of selected data points')

    def __ne__(self, o):
        return not self.__eq__(o)

    def __gt__(self, o):
        return not self.__eq__(o)
    __hash__ = GLen.__hash__
    __lt__ = __le__ = __ge__ = GLen0_no = lambda self, o: self._s()


def masklen():
    """length of a selection that misses the generic point: zero, or positive"""
    e = engine()
    k = ('masklen', len(e.datafork))
    if k not in e.known:
        e.known[k] = e.choose(2) == 0
    return GLen0() if e.known[k] else 0


# ------------------------------------------------------------------ scalar functions
def _u1(name, native):
    def f(x):
        if isinstance(x, (S, SBool, GLen)) or isinstance(x, (Fr, int, np.integer, np.bool_)) or (isinstance(x, (float, np.floating)) and math.isfinite(x)):
            try:
                return S(fn(name, term(x)))
            except tm.DomainError:
                return float('nan') if not (name == 'log' and term(x) is tm.ZERO) else -INF
        return native(x)
    f.__name__ = 'u_' + name
    return f


u_exp = _u1('exp', np.exp)
u_log = _u1('log', np.log)
u_sin, u_cos = _u1('sin', np.sin), _u1('cos', np.cos)
u_arctan = _u1('arctan', np.arctan)
u_arcsin, u_arccos = _u1('arcsin', np.arcsin), _u1('arccos', np.arccos)
u_sinh, u_cosh, u_tanh = _u1('sinh', np.sinh), _u1('cosh', np.cosh), _u1('tanh', np.tanh)
u_floor0 = _u1('floor', np.floor)
u_erf, u_erfc = _u1('erf', lambda x: math.erf(x)), _u1('erfc', lambda x: math.erfc(x))
_erfinv0 = _u1('erfinv', lambda x: float('nan'))


def u_erfinv(x):
    t = term(x)
    if t is not None and t.op == 'c' and abs(t.a) >= 1:
        return math.copysign(math.inf, t.a) if abs(t.a) == 1 else float('nan')
    return _erfinv0(x)



u_digamma = _u1('digamma', None)


def u_gammaln(x):
    return u_log(S(fn('gamma+', term(x))))



def u_floor(x):
    t = term(x)
    if t is None:
        return np.floor(x)
    if t.op == 'c':
        return S(const(math.floor(t.a)))
    return S(tfloor(t))


def u_ceil(x):
    return -u_floor(-wrap(x))


def u_sqrt(x):
    t = term(x)
    if t is None:
        return np.sqrt(x)
    try:
        return S(tm.sqrt(t))
    except tm.DomainError:
        return float('nan')


NOFORK = True


def u_abs(x):
    t = term(x)
    if t is None:
        return abs(x)
    if t.op == 'c' or t.dat or tm.is_nneg(t):
        return S(fn('abs', t))
    if tm.is_nneg(neg(t)):
        return S(neg(t))
    if NOFORK:
        return S(fn('abs', t))
    return S(t) if bool(SBool(cmp_('>=', t, tm.ZERO))) else S(neg(t))


def u_sign(x):
    t = term(x)
    if t is None:
        return np.sign(x)
    if t.op == 'c' or t.dat:
        return S(fn('sign', t))
    if bool(mkbool(cmp_('>', t, tm.ZERO))):
        return S(tm.ONE)
    if bool(mkbool(cmp_('<', t, tm.ZERO))):
        return S(tm.const(-1))
    return S(tm.ZERO)


def u_max(a, b):
    if _inf(a) or _inf(b):
        if _inf(a) and _inf(b):
            return max(a, b)
        if _inf(b):
            a, b = b, a
        return a if a > 0 else b
    c = cmp_('>=', term(a), term(b))
    return _choose(c, a, b)


def u_min(a, b):
    if _inf(a) or _inf(b):
        if _inf(a) and _inf(b):
            return min(a, b)
        if _inf(b):
            a, b = b, a
        return a if a < 0 else b
    c = cmp_('<=', term(a), term(b))
    return _choose(c, a, b)


def _choose(c, a, b):
    """a if c else b : as a term when the condition depends on the data, else by case split"""
    if c is True:
        return a
    if c is False:
        return b
    if cdat(c) and term(a) is not None and term(b) is not None:
        return S(tm.ite(c, term(a), term(b)))
    return a if engine().decide(c) else b


def u_arctan2(a, b):
    return S(fn('arctan2', term(a), term(b)))


def u_tan(x):
    t = term(x)
    if t is not None:
        k, m = tm._split(t)
        if abs(k) == 1 and m.op == 'f' and m.a == 'arctan':
            return S(tm.scale(m.b[0], k))
    return u_sin(x) / u_cos(x)


def u_arctan(x, raw=u_arctan):
    """arctan(sin q / cos q) is q when |q| < pi/2 on this path"""
    t = term(x)
    if t is None and _inf(x) and x == x:
        return S(tm.scale(tm.PI, Fr(1 if x > 0 else -1, 2)))
    if t is not None and t.op == '*':
        k, m = tm._split(t)
        f = dict(m.a) if m.op == '*' else {}
        for u in list(f):
            if u.op == 'f' and u.a == 'sin' and f[u] == 1 and len(f) == 2 and abs(k) == 1 and f.get(fn('cos', u.b[0])) == -1:
                q = tm.scale(u.b[0], k)
                h = tm.scale(tm.PI, Fr(1, 2))
                if all(check_sat(engine().pc + [c], timeout=8000) == 'unsat' for c in (cmp_('>=', q, h), cmp_('<=', q, neg(h))) if c is not True):
                    return S(q)
    return raw(x)


def u_copysign(a, b):
    t = term(b)
    if t is not None and t.op == 'c' and t.a == 0:
        return u_abs(a)
    return _choose(cmp_('>=', term(b), tm.ZERO), u_abs(a), -u_abs(a))


# methods numpy calls on elements of plain object arrays
for _n in ('exp', 'log', 'sin', 'cos', 'arctan', 'arcsin', 'arccos', 'sinh', 'cosh', 'tanh', 'sqrt', 'floor', 'ceil'):
    def _m(self, _f=globals()['u_' + _n]):
        return _f(self)
    setattr(S, _n, _m)
S.square = lambda self: self * self
S.tan = lambda self: u_tan(self)
S.log10 = lambda self: u_log(self) / S(tm.log(const(10)))
S.conjugate = lambda self: self


# ------------------------------------------------------------------ z3
class Z(object):
    def __init__(self):
        import z3
        self.z3 = z3
        self.memo = {}
        self.side = []
        self.apps = {}
        self.fun = {}

    def real(self, name):
        return self.z3.Real(name)

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._tr(t)
        return r

    def _tr(self, t):
        z3 = self.z3
        o = t.op
        if o == 'c':
            return z3.RealVal(str(t.a))
        if o == 'v':
            d = tm.VARS[t.a]
            if d['sort'] == 'int':
                v = z3.ToReal(z3.Int(t.a))
            else:
                v = z3.Real(t.a)
            if t.a == 'pi':
                self.side.append(z3.And(v > z3.RealVal('3.14159265358979'), v < z3.RealVal('3.14159265358980')))
            elif t.a == 'N':
                self.side.append(v >= 1)
            elif d['pos']:
                self.side.append(v > 0)
            return v
        if o == '+':
            r = z3.RealVal(str(t.b))
            for u, k in t.a:
                r = r + z3.RealVal(str(k)) * self(u)
            return r
        if o == '*':
            num, den = None, None
            for u, k in t.a:
                x = self(u)
                if k.denominator != 1:
                    x = self.rootof(u, x, k.denominator)
                    k = Fr(k.numerator)
                n = abs(int(k))
                p = x
                for _ in range(n - 1):
                    p = p * x
                if k > 0:
                    num = p if num is None else num * p
                else:
                    den = p if den is None else den * p
                    self.side.append(x != 0)
            if num is None:
                num = z3.RealVal(1)
            return num if den is None else num / den
        if o == 'ite':
            return z3.If(self.cond(t.a), self(t.b[0]), self(t.b[1]))
        return self.app(t)

    def rootof(self, u, x, d):
        key = ('root', u.id, d)
        r = self.memo.get(key)
        if r is None:
            r = self.z3.Real('root%d_%d' % (d, u.id))
            p = r
            for _ in range(d - 1):
                p = p * r
            self.side.append(p == x)
            if d % 2 == 0 or tm.is_nneg(u):
                self.side.append(r >= 0)
            self.memo[key] = r
            if u.op == 'f' and u.a == 'exp':
                self.mono('exp', self(u.b[0]) / d, r)
        return r

    def app(self, t):
        z3 = self.z3
        n = t.a
        args = [self(u) for u in t.b]
        key = (n, len(args))
        f = self.fun.get(key)
        if f is None:
            f = self.fun[key] = z3.Function('f_' + n.replace(':', '_').replace("'", '_d').replace('+', 'p'), *([z3.RealSort()] * (len(args) + 1)))
        if n == 'sum':
            r = z3.Real('sum_%d' % t.id)
            if tm.is_pos(t):
                self.side.append(r > 0)
            elif tm.is_nneg(t):
                self.side.append(r >= 0)
            return r
        r = f(*args)
        x = args[0]
        s = self.side
        if n == 'exp':
            s += [r > 0, (r > 1) == (x > 0), (r < 1) == (x < 0), r >= 1 + x]
            self.mono(n, x, r)
        elif n == 'log':
            s += [(r > 0) == (x > 1), (r < 0) == (x < 1), r <= x - 1]
            self.mono(n, x, r)
        elif n == 'sin' or n == 'cos':
            o = self.app_raw('cos' if n == 'sin' else 'sin', x)
            s += [r * r + o * o == 1, r <= 1, r >= -1, o <= 1, o >= -1]
        elif n == 'abs':
            s += [r == z3.If(x >= 0, x, -x)]
        elif n == 'sign':
            s += [r == z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))]
        elif n == 'erf':
            s += [r < 1, r > -1, (r > 0) == (x > 0), (r < 0) == (x < 0)]
            self.mono(n, x, r)
        elif n == 'arctan':
            pi = self(tm.PI)
            s += [r < pi / 2, r > -pi / 2, (r > 0) == (x > 0), (r < 0) == (x < 0)]
            self.mono(n, x, r)
        elif n == 'floor':
            self.nint = getattr(self, 'nint', 0) + 1
            s += [r == z3.ToReal(z3.Int('fl!%d' % self.nint)), r <= x, x < r + 1]
        elif n == 'tanh':
            s += [r < 1, r > -1, (r > 0) == (x > 0), (r < 0) == (x < 0)]
        elif n == 'cosh':
            s += [r >= 1]
        return r

    def app_raw(self, n, x):
        key = (n, 1)
        f = self.fun.get(key)
        if f is None:
            f = self.fun[key] = self.z3.Function('f_' + n, self.z3.RealSort(), self.z3.RealSort())
        return f(x)

    def mono(self, n, x, r):
        l = self.apps.setdefault(n, [])
        if len(l) < 8:
            for y, q in l:
                self.side.append((x < y) == (r < q))
                self.side.append((x == y) == (r == q))
                if n == 'exp':
                    self.side.append((x < -y) == (r * q < 1))
                elif n in ('erf', 'arctan'):       # odd
                    self.side.append((x < -y) == (r < -q))
                    self.side.append((x == -y) == (r == -q))
            l.append((x, r))

    def cond(self, c):
        z3 = self.z3
        if c is True or c is False:
            return z3.BoolVal(c)
        if c[0] == 'and':
            return z3.And(*[self.cond(x) for x in c[1]])
        if c[0] == 'or':
            return z3.Or(*[self.cond(x) for x in c[1]])
        v = self(c[1])
        return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[c[0]]


_sat_cache = {}
STATS = dict(z3_calls=0, z3_time=0.0, fp_calls=0, fp_time=0.0)


def check_sat(conds, timeout=400, model=False):
    """'sat' / 'unsat' / 'unknown' for a conjunction (uninterpreted functions over-approximate)"""
    import time
    if any(c is False for c in conds):
        return ('unsat', None) if model else 'unsat'
    conds = [c for c in conds if c is not True]
    key = (frozenset(conds), timeout) if not model else None
    if key in _sat_cache:
        return _sat_cache[key]
    t0 = time.time()
    z = Z()
    import z3
    s = z3.Solver()
    s.set('timeout', timeout)
    cs = [z.cond(c) for c in conds]
    for x in z.side:
        s.add(x)
    for x in cs:
        s.add(x)
    STATS['z3_calls'] += 1
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS['z3_time'] += time.time() - t0
    if model:
        if r != 'sat':
            return r, None
        m = s.model()
        env = {}
        for d in m.decls():
            nm = d.name()
            if d.arity() == 0 and nm in tm.VARS:
                v = m[d]
                try:
                    env[nm] = float(v.as_fraction()) if hasattr(v, 'as_fraction') else float(v.approx(30).as_fraction()) if hasattr(v, 'approx') else float(str(v))
                except Exception:
                    pass
        return r, env
    _sat_cache[key] = r
    return r


# ------------------------------------------------------------------ path exploration
class Engine(object):
    def __init__(self, pre=(), maxpaths=400, prune=True):
        self.pre = list(pre)
        self.prefix = []
        self.maxpaths = maxpaths
        self.prune = prune
        self.npaths = 0

    def start(self):
        self.pos = 0
        self.trace = []            # (choice index, number of alternatives)
        self.pc = list(self.pre)
        self.datafork = []
        self.picks = []
        self.known = {}
        self.fresh = {}
        self.npaths += 1

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd('assumption false')
        self.pc.append(c)
        self.known[c] = True
        self.known[cnot(c)] = False

    def decide(self, c):
        if c is True or c is False:
            return c
        k = self.known.get(c)
        if k is not None:
            return k
        if c[0] == 'and' and all(self.known.get(x) for x in c[1]):
            return True
        if c[0] == 'or' and any(self.known.get(x) for x in c[1]):
            return True
        n = self.choose(2, c)
        r = n == 0
        cc = c if r else cnot(c)
        self.known[c] = r
        self.known[cnot(c)] = not r
        if cc is not True:
            self.pc.append(cc)
        if cdat(c) and check_sat(self.pc[:-1 if cc is not True else None] + [cnot(cc)]) != 'unsat':
            self.datafork.append(cc)
        return r

    def choose(self, n, c=None):
        """pick one of n alternatives; all are explored over the runs"""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            feas = None
        else:
            k = None
        self.pos += 1
        if k is not None:
            self.trace.append((k, n))
            if c is None:
                self.picks.append(k)
            return k
        if c is None:
            self.picks.append(0)
        if c is not None and self.prune:
            f0 = check_sat(self.pc + [c])
            if f0 == 'unsat':
                self.trace.append((1, 2))       # last alternative: nothing left to try
                return 1
            f1 = check_sat(self.pc + [cnot(c)])
            if f1 == 'unsat':
                self.trace.append((0, 1))
                return 0
        self.trace.append((0, n))
        return 0

    def choices(self):
        """structural choices made on this path (not the branch decisions)"""
        return list(self.picks)

    def next(self):
        t = self.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        k, n = t.pop()
        self.prefix = [x[0] for x in t] + [k + 1]
        return True

    def freshvar(self, base, **kw):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return S(tm.var('%s!%d' % (base, n), **kw))


_eng = [None]


def engine():
    if _eng[0] is None:
        raise Unsupported('symbolic condition outside an exploration')
    return _eng[0]


def explore(f, pre=(), maxpaths=400, prune=True):
    """run f() on every feasible path; yields (engine, result, exception)"""
    e = Engine(pre, maxpaths, prune)
    old = _eng[0]
    try:
        while True:
            _eng[0] = e
            e.start()
            try:
                r, x = f(), None
            except PathEnd as p:
                r, x = None, p
            except Exception as p:
                r, x = None, p
            yield e, r, x
            if e.npaths >= e.maxpaths:
                raise Unsupported('more than %d paths' % e.maxpaths)
            _eng[0] = e
            if not e.next():
                break
    finally:
        _eng[0] = old
