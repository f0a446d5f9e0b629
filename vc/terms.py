"""Real-valued terms: hash-consed DAG, differentiation, float/mp evaluation,
and a decision procedure for equality (polynomial identity testing over a prime field).

Everything here treats numbers as mathematical reals."""
import math, random, hashlib
from fractions import Fraction as Fr
import numpy as np

_tab = {}
_nid = [0]
VARS = {}        # name -> dict( data=bool, pos=bool, sort='real'|'int' )


class T(object):
    __slots__ = ('op', 'a', 'b', 'id', 'dat', '_pos')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(op, a, b, dat):
    k = (op, a, b)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.b, t.dat, t._pos = op, a, b, dat, None
        _nid[0] += 1
        t.id = _nid[0]
        _tab[k] = t
    return t


def const(x):
    if isinstance(x, T):
        return x
    return _mk('c', Fr(x), None, False)


ZERO, ONE = const(0), const(1)
HALF = Fr(1, 2)


def var(name, data=False, pos=False, sort='real'):
    if name not in VARS:
        VARS[name] = dict(data=data, pos=pos, sort=sort)
    d = VARS[name]
    return _mk('v', name, None, d['data'])


PI = var('pi', pos=True)
NVAR = var('N', pos=True, sort='int')


def isc(t):
    return t.op == 'c'


# ---------------------------------------------------------------- construction
def _addparts(t):
    if t.op == 'c':
        return (), t.a
    if t.op == '+':
        return t.a, t.b
    return ((t, Fr(1)),), Fr(0)


def _mkadd(d, c):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk('+', tuple(items), c, any(t.dat for t, k in items))


def add(*ts):
    d, c = {}, Fr(0)
    for t in ts:
        ps, k = _addparts(t)
        c += k
        for u, v in ps:
            d[u] = d.get(u, 0) + v
    return _mkadd(d, c)


def scale(t, k):
    k = Fr(k)
    if k == 0:
        return ZERO
    if k == 1:
        return t
    ps, c = _addparts(t)
    return _mkadd({u: v * k for u, v in ps}, c * k)


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def _split(t):
    """coefficient, monomial"""
    if t.op == 'c':
        return t.a, ONE
    if t.op == '+' and len(t.a) == 1 and t.b == 0:
        return t.a[0][1], t.a[0][0]
    return Fr(1), t


def _mulparts(t):
    if t is ONE:
        return ()
    if t.op == '*':
        return t.a
    return ((t, Fr(1)),)


def _mkmul(d, coef):
    items = []
    for t, e in d.items():
        if e == 0:
            continue
        if t.op == 'c':            # prime base with fractional power
            ie = e.numerator // e.denominator
            if ie:
                coef *= t.a ** ie
                e = e - ie
            if e == 0:
                continue
        items.append((t, e))
    if coef == 0:
        return ZERO
    if not items:
        return const(coef)
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], coef)
    items.sort(key=lambda x: x[0].id)
    m = _mk('*', tuple(items), None, any(t.dat for t, k in items))
    return scale(m, coef)


def mul(*ts):
    d, c = {}, Fr(1)
    for t in ts:
        k, m = _split(t)
        c *= k
        if c == 0:
            return ZERO
        for u, e in _mulparts(m):
            d[u] = d.get(u, 0) + e
    return _mkmul(d, c)


def _factor(n):
    r, n, p = {}, int(n), 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


class DomainError(ArithmeticError):
    pass


def powr(t, e):
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == 'c':
        if t.a == 0:
            if e < 0:
                raise ZeroDivisionError('0 to negative power')
            return ZERO
        if e.denominator == 1:
            return const(t.a ** int(e))
        if t.a < 0:
            raise DomainError('root of negative constant')
        d = {}
        for p, k in _factor(t.a.numerator).items():
            d[const(p)] = d.get(const(p), 0) + k * e
        for p, k in _factor(t.a.denominator).items():
            d[const(p)] = d.get(const(p), 0) - k * e
        return _mkmul(d, Fr(1))
    k, m = _split(t)
    if e.denominator == 1:
        d = {}
        for u, x in _mulparts(m):
            d[u] = d.get(u, 0) + x * e
        return _mkmul(d, k ** int(e)) if e > 0 or k != 0 else ZERO
    # fractional power: pull out what is known to be positive
    d = {}
    rest = {}
    c = Fr(1)
    if k > 0:
        kc = powr(const(k), e)
    else:
        kc = ONE
        rest_coef = k
    for u, x in _mulparts(m):
        if is_pos(u):
            d[u] = d.get(u, 0) + x * e
        else:
            rest[u] = rest.get(u, 0) + x
    restt = _mkmul(rest, Fr(1)) if rest else ONE
    if k < 0:
        restt = scale(restt, k)
    if restt is not ONE:
        kk, mm = _split(restt)
        mp = _mulparts(mm)
        if kk == 1 and len(mp) == 1 and mp[0][1].denominator == 1 and int(mp[0][1]) % 2 == 0:
            # (u^2j)^e = |u|^(2je)
            d[fn('abs', mp[0][0])] = d.get(fn('abs', mp[0][0]), 0) + mp[0][1] * e
        elif kk == 1 and len(mp) == 1 and mp[0][1].denominator != 1:
            d[mp[0][0]] = d.get(mp[0][0], 0) + mp[0][1] * e
        else:
            d[restt] = d.get(restt, 0) + e
    return mul(kc, _mkmul(d, Fr(1)))


def div(a, b):
    return mul(a, powr(b, -1))


def is_pos(t):
    """syntactically strictly positive"""
    if t._pos is not None:
        return t._pos
    r = False
    if t.op == 'c':
        r = t.a > 0
    elif t.op == 'v':
        r = VARS[t.a]['pos']
    elif t.op == '+':
        r = t.b >= 0 and all(k > 0 and is_nneg(u) for u, k in t.a) and (t.b > 0 or any(is_pos(u) for u, k in t.a))
    elif t.op == '*':
        r = all(is_pos(u) or (x.denominator == 1 and x % 2 == 0 and x < 0) for u, x in t.a)
    elif t.op == 'f':
        if t.a in ('exp', 'gamma+'):
            r = True
        elif t.a == 'abs':
            r = is_pos(t.b[0])
        elif t.a == 'sum':
            r = is_pos(t.b[0])
    t._pos = r
    return r


def is_nneg(t):
    if is_pos(t):
        return True
    if t.op == 'c':
        return t.a >= 0
    if t.op == '+':
        return t.b >= 0 and all(k > 0 and is_nneg(u) for u, k in t.a)
    if t.op == '*':
        return all(is_nneg(u) or (x.denominator == 1 and x % 2 == 0) or (x.denominator % 2 == 0) for u, x in t.a)
    if t.op == 'f':
        if t.a == 'abs':
            return True
        if t.a == 'sum':
            return is_nneg(t.b[0])
    return False


ODD = {'arctan', 'erf', 'sinh', 'tanh', 'arcsin', 'erfinv', 'sign', 'arcsinh', 'arctanh'}


def fn(name, *args):
    if all(a.op == 'c' for a in args):
        r = _fconst(name, args)
        if r is not None:
            return r
    if name == 'exp':
        return exp(args[0])
    if name == 'abs':
        k, m = _split(args[0])
        if is_nneg(m):
            return scale(m, abs(k))
        if k != 1:
            return scale(fn('abs', m), abs(k))
        if m.op == '*':
            pos = {u: x for u, x in m.a if is_pos(u)}
            if pos:
                oth = {u: x for u, x in m.a if u not in pos}
                return mul(_mkmul(pos, Fr(1)), fn('abs', _mkmul(oth, Fr(1)) if oth else ONE))
    if name == 'sign' and is_pos(args[0]):
        return ONE
    if name in ('erf', 'erfinv'):                 # erfinv is only applied inside (-1,1)
        k, m = _split(args[0])
        if abs(k) == 1 and m.op == 'f' and m.a == ('erfinv' if name == 'erf' else 'erf'):
            return scale(m.b[0], k)
    if name == 'log' and len(args) == 1:
        a = args[0]
        k, m = _split(a)
        if m.op == 'f' and m.a == 'exp':
            return add(fn('log', const(k)) if k != 1 else ZERO, m.b[0])
    if name in ODD or name in ('sin',):
        k, m = _split(args[0])
        if k < 0:
            return neg(fn(name, neg(args[0])))
    if name in ('cos', 'cosh'):
        k, m = _split(args[0])
        if k < 0:
            return fn(name, neg(args[0]))
    if name == 'sum':
        return mksum(args[0])
    dat = any(a.dat for a in args) if name != 'sum' else False
    return _mk('f', name, tuple(args), dat)


def _fconst(name, args):
    a = args[0].a
    if name == 'exp' and a == 0:
        return ONE
    if name == 'log' and a == 1:
        return ZERO
    if name == 'log' and a <= 0:
        raise DomainError('log of non-positive constant')
    if name in ('sin', 'arctan', 'erf', 'sinh', 'tanh', 'arcsin', 'erfinv', 'sign', 'abs') and a == 0:
        return ZERO
    if name in ('cos', 'cosh') and a == 0:
        return ONE
    if name == 'abs':
        return const(abs(a))
    if name == 'sign':
        return const(1 if a > 0 else -1)
    if name == 'floor':
        return const(math.floor(a))
    if name == 'gamma+' and a.denominator == 1 and 0 < a < 60:
        return const(math.factorial(int(a) - 1))
    if name == 'gamma+' and a.denominator == 2 and 0 < a < 60:
        r, x = sqrt(PI), HALF
        while x < a:
            r, x = scale(r, x), x + 1
        return r
    return None


def _loginside(u):
    """a product with a sum that has a logarithm as one of its terms"""
    if u.op != '*':
        return False
    for v, k in u.a:
        if v.op == '+' and k > 0 and any(w.op == 'f' and w.a == 'log' or w.op == '*' and any(z.op == 'f' and z.a == 'log' for z, _ in w.a) or _loginside(w) for w, _ in v.a):
            return True
    return False


def exp(t):
    ps, c = _addparts(t)
    if any(_loginside(u) for u, _ in ps):
        try:
            t = expand(t, 60)
            ps, c = _addparts(t)
        except TooBig:
            pass
    d = {}
    if c != 0:
        e1 = _mk('f', 'exp', (ONE,), False)
        d[e1] = c
    for u, k in ps:
        if u.op == 'f' and u.a == 'log':
            b = powr(u.b[0], k)
            kk, mm = _split(b)
            if kk != 1:
                return mul(b, exp(sub(t, scale(u, k))))
            for v, x in _mulparts(mm):
                d[v] = d.get(v, 0) + x
        else:
            e = _mk('f', 'exp', (u,), u.dat)
            d[e] = d.get(e, 0) + k
    return _mkmul(d, Fr(1))


def log(t):
    return fn('log', t)


def sqrt(t):
    return powr(t, HALF)


def power(b, e):
    if e.op == 'c':
        return powr(b, e.a)
    return exp(mul(e, fn('log', b)))


def mksum(body):
    """sum over the data axis; linear, scalar factors pulled out"""
    if not body.dat:
        return mul(body, NVAR)
    ps, c = _addparts(body)
    if len(ps) == 1 and c == 0:
        u, k = ps[0]
        if k != 1:
            return scale(mksum(u), k)
        if u.op == '*':
            out = {v: x for v, x in u.a if not v.dat}
            if out:
                inn = {v: x for v, x in u.a if v.dat}
                return mul(_mkmul(out, Fr(1)), mksum(_mkmul(inn, Fr(1))))
        return _mk('f', 'sum', (body,), False)
    r = [mul(const(c), NVAR)] if c != 0 else []
    for u, k in ps:
        r.append(scale(mksum(u), k))
    return add(*r)


def ite(c, a, b):
    from . import sym
    if a is b:
        return a
    return _mk('ite', c, (a, b), a.dat or b.dat or sym.cdat(c))


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    seen = {} if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        st.extend(children(u))
    return seen


def children(u):
    if u.op == '+' or u.op == '*':
        return [v for v, k in u.a]
    if u.op == 'f':
        return list(u.b)
    if u.op == 'ite':
        from . import sym
        return list(u.b) + sym.cterms(u.a)
    return []


def fvars(t):
    return {u.a for u in subterms(t).values() if u.op == 'v'}


def movers(t):
    """variables on which the value depends otherwise than through conditions"""
    out, seen, st = set(), set(), [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'v':
            out.add(u.a)
        elif u.op in '+*':
            st.extend(x for x, k in u.a)
        elif u.op == 'f':
            if u.a not in ('floor', 'ceil', 'sign', 'rint'):
                st.extend(u.b)
        elif u.op == 'ite':
            st.extend(u.b)
    return out


def rebuild(t, f, memo):
    """bottom-up map: f(term, newchildren-aware) ; memo keyed on id"""
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in 'cv':
        r = f(t)
    elif t.op == '+':
        r = add(const(t.b), *[scale(rebuild(u, f, memo), k) for u, k in t.a])
    elif t.op == '*':
        r = mul(*[powr(rebuild(u, f, memo), k) for u, k in t.a])
    elif t.op == 'f':
        r = fn(t.a, *[rebuild(u, f, memo) for u in t.b])
    else:
        from . import sym
        c = sym.cmap(t.a, lambda x: rebuild(x, f, memo))
        if c is True or c is False:
            r = rebuild(t.b[0 if c else 1], f, memo)
        else:
            r = ite(c, rebuild(t.b[0], f, memo), rebuild(t.b[1], f, memo))
    memo[t.id] = r
    return r


def subst(t, m):
    return rebuild(t, lambda u: m.get(u.a, u) if u.op == 'v' else u, {})


# ---------------------------------------------------------------- differentiation
def diff(t, v, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'c':
        r = ZERO
    elif t.op == 'v':
        r = ONE if t.a == v else ZERO
    elif t.op == '+':
        r = add(*[scale(diff(u, v, memo), k) for u, k in t.a]) if t.a else ZERO
    elif t.op == '*':
        r = []
        for u, k in t.a:
            du = diff(u, v, memo)
            if du is not ZERO:
                r.append(mul(const(k), t, powr(u, -1), du))
        r = add(*r) if r else ZERO
    elif t.op == 'ite':
        a, b = diff(t.b[0], v, memo), diff(t.b[1], v, memo)
        r = a if a is b else ite(t.a, a, b)
    else:
        r = []
        for i, u in enumerate(t.b):
            du = diff(u, v, memo)
            if du is ZERO:
                continue
            r.append(mul(_dfn(t, i), du) if t.a != 'sum' else mksum(du))
        r = add(*r) if r else ZERO
    memo[t.id] = r
    return r


def _dfn(t, i):
    n, a = t.a, t.b
    x = a[i]
    if n == 'exp':
        return t
    if n == 'log':
        return powr(x, -1)
    if n == 'sin':
        return fn('cos', x)
    if n == 'cos':
        return neg(fn('sin', x))
    if n == 'arctan':
        return powr(add(ONE, mul(x, x)), -1)
    if n == 'arctan2':
        y, z = a
        d = powr(add(mul(y, y), mul(z, z)), -1)
        return mul(z, d) if i == 0 else neg(mul(y, d))
    if n == 'sinh':
        return fn('cosh', x)
    if n == 'cosh':
        return fn('sinh', x)
    if n == 'tanh':
        return sub(ONE, mul(t, t))
    if n == 'arcsin':
        return powr(sub(ONE, mul(x, x)), -HALF)
    if n == 'arccos':
        return neg(powr(sub(ONE, mul(x, x)), -HALF))
    if n == 'erf':
        return mul(const(2), powr(PI, -HALF), exp(neg(mul(x, x))))
    if n == 'erfc':
        return mul(const(-2), powr(PI, -HALF), exp(neg(mul(x, x))))
    if n == 'abs':
        return fn('sign', x)
    if n in ('sign', 'floor', 'round'):
        return ZERO
    if n == 'gammaln':
        return fn('digamma', x)
    if n == 'gamma+':
        return mul(t, fn('digamma', x))
    if n == 'wofz_re' or n == 'wofz_im':
        # w' = -2 z w + 2 i / sqrt(pi),  z = x + i y ; dw/dx = w', dw/dy = i w'
        x_, y_ = a
        re, im = fn('wofz_re', x_, y_), fn('wofz_im', x_, y_)
        wr = scale(sub(mul(x_, re), mul(y_, im)), -2)
        wi = add(scale(add(mul(x_, im), mul(y_, re)), -2), scale(powr(PI, -HALF), 2))
        if n == 'wofz_re':
            return wr if i == 0 else neg(wi)
        return wi if i == 0 else wr
    if n == 'KE':             # E - e sin E = M
        d = powr(sub(ONE, mul(a[0], fn('cos', t))), -1)
        return mul(fn('sin', t), d) if i == 0 else d
    if n.startswith('U:'):
        return fn(n + "'%d" % i, *a)
    raise NotImplementedError('derivative of %s' % n)


# ---------------------------------------------------------------- numeric evaluation
def _special(name, args):
    from scipy import special as sp
    x = args[0]
    if name == 'erf': return sp.erf(x)
    if name == 'erfc': return sp.erfc(x)
    if name == 'erfinv': return sp.erfinv(x)
    if name == 'gammaln': return sp.gammaln(x)
    if name == 'gamma+': return sp.gamma(x)
    if name == 'digamma': return sp.digamma(x)
    if name == 'wofz_re': return sp.wofz(args[0] + 1j * args[1]).real
    if name == 'wofz_im': return sp.wofz(args[0] + 1j * args[1]).imag
    if name == 'KE':
        e, M = args
        lo, hi = M - np.abs(e) - 1e-9, M + np.abs(e) + 1e-9
        for _ in range(80):
            E = (lo + hi) / 2
            up = E - e * np.sin(E) < M
            lo, hi = np.where(up, E, lo), np.where(up, hi, E)
        return (lo + hi) / 2
    raise KeyError(name)


def evalf(t, env, ufun=None, memo=None):
    """numpy float evaluation; data variables are 1-d arrays"""
    memo = {} if memo is None else memo

    def ev(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        o = u.op
        if o == 'c':
            r = float(u.a)
        elif o == 'v':
            r = math.pi if u.a == 'pi' else env[u.a]
        elif o == '+':
            r = float(u.b)
            for v, k in u.a:
                r = r + float(k) * ev(v)
        elif o == '*':
            r, ex = 1.0, 0.0
            for v, k in u.a:
                if v.op == 'f' and v.a == 'exp':
                    ex = ex + float(k) * ev(v.b[0])
                elif k.denominator == 1:
                    x = ev(v)
                    r = r * (x ** int(k) if k > 0 else 1.0 / (x ** int(-k)))
                else:
                    r = r * np.power(np.asarray(ev(v), dtype=float), float(k))
            r = r * np.exp(ex)
        elif o == 'ite':
            from . import sym
            c = sym.cevalf(u.a, ev)
            r = np.where(c, ev(u.b[0]), ev(u.b[1]))
        else:
            if u.a == 'sum':
                r = np.sum(ev(u.b[0]) * np.ones(env['N']))
            else:
                aa = [ev(v) for v in u.b]
                if u.a.startswith('U:'):
                    r = ufun(u.a, aa)
                elif hasattr(np, u.a):
                    r = getattr(np, u.a)(*aa)
                else:
                    r = _special(u.a, aa)
        memo[u.id] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    with np.errstate(all='ignore'):
        return ev(t)


# ---------------------------------------------------------------- expansion
class TooBig(Exception):
    pass


def expand(t, limit=4000):
    """multiply sums out (positive integer powers only); raises TooBig"""
    memo = {}

    def ex(u):           # -> dict monomial(tuple of (id,exp)) -> coef
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op == 'c':
            r = {(): u.a} if u.a != 0 else {}
        elif u.op == '+':
            r = {(): u.b} if u.b != 0 else {}
            for v, k in u.a:
                for m, c in ex(v).items():
                    r[m] = r.get(m, 0) + c * k
            r = {m: c for m, c in r.items() if c != 0}
        elif u.op == '*':
            r = {(): Fr(1)}
            for v, k in u.a:
                if v.op == '+' and k.denominator == 1 and k > 0:
                    e = ex(v)
                    for _ in range(int(k)):
                        r = _pmul(r, e, limit)
                else:
                    r = _pmul(r, {((v.id, k),): Fr(1)}, limit)
                    atoms[v.id] = v
        else:
            atoms[u.id] = u
            r = {((u.id, Fr(1)),): Fr(1)}
        if len(r) > limit:
            raise TooBig()
        memo[u.id] = r
        return r
    atoms = {}
    p = ex(t)
    d, c = {}, Fr(0)
    for m, k in p.items():
        mm = _mkmul({atoms[i]: e for i, e in m}, Fr(1))
        kk, u = _split(mm)
        if u is ONE:
            c += kk * k
        else:
            ps, cc = _addparts(u)
            for v, x in ps:
                d[v] = d.get(v, 0) + x * kk * k
            c += cc * kk * k
    return _mkadd(d, c)


def _pmul(a, b, limit):
    r = {}
    if len(a) * len(b) > 50 * limit:
        raise TooBig()
    for m, c in a.items():
        for n, k in b.items():
            if not m:
                q = n
            elif not n:
                q = m
            else:
                d = dict(m)
                for i, e in n:
                    d[i] = d.get(i, 0) + e
                q = tuple(sorted((i, e) for i, e in d.items() if e != 0))
            r[q] = r.get(q, 0) + c * k
    return {m: c for m, c in r.items() if c != 0}


# ---------------------------------------------------------------- fingerprints
P = (1 << 127) - 1
SQ = (P + 1) // 4
KD = 3                      # number of data points in a fingerprint
DEXP = 64 * 27 * 25 * 7
DTRIG = 64 * 9 * 5


class NotQR(Exception):
    pass


class ZeroFP(Exception):
    pass


_FACT = {}


def factors(t):
    """factors [(term, exponent)] of a sum that is a product of polynomials in its atoms; None when it has none.
    The product is checked again by expansion: the computer algebra is only a guess."""
    if t.id in _FACT:
        return _FACT[t.id]
    _FACT[t.id] = None
    try:
        e = expand(t, 60)
    except TooBig:
        return None
    ps, c = _addparts(e)
    at, rows = {}, []
    for u, k in list(ps) + ([(ONE, c)] if c != 0 else []):
        row = []
        for v, x in ([] if u is ONE else _mulparts(u)):
            if x.denominator != 1:
                return None
            row.append((at.setdefault(v.id, (len(at), v))[0], int(x)))
        rows.append((dict(row), k))
    if len(rows) < 3 or len(rows) > 60 or len(at) > 12:
        return None
    lo = [min(r.get(i, 0) for r, _ in rows) for i in range(len(at))]
    if max(sum(r.get(i, 0) - lo[i] for i in range(len(at))) for r, _ in rows) < 2:
        return None
    sp = _sympy()
    if sp is None:
        return None
    ss = [sp.Symbol('v%d' % i) for i in range(len(at))]
    pol = sp.Poly.from_dict({tuple(r.get(i, 0) - lo[i] for i in range(len(at))): sp.Rational(k.numerator, k.denominator) for r, k in rows}, *ss)
    cf, fl = sp.factor_list(pol)
    if len(fl) == 1 and fl[0][1] == 1:
        return None
    av = [v for _, v in sorted(at.values(), key=lambda q: q[0])]
    out = [(const(Fr(int(cf.p), int(cf.q))), Fr(1))] if cf != 1 else []
    for i, v in enumerate(av):
        if lo[i]:
            out.append((v, Fr(lo[i])))
    for f, n in fl:
        q = f.as_dict() if hasattr(f, 'as_dict') else sp.Poly(f, *ss).as_dict()
        out.append((add(*[_mkmul({av[i]: Fr(x) for i, x in enumerate(m) if x}, Fr(int(k.p), int(k.q))) for m, k in q.items()]), Fr(n)))
    back = mul(*[powr(u, x) for u, x in out])
    try:
        if not iszero_terms(expand(add(back, scale(e, -1)), 4000)):
            return None
    except TooBig:
        return None
    _FACT[t.id] = out
    return out


def iszero_terms(t):
    return t.op == 'c' and t.a == 0


_SP = []


def _sympy():
    if not _SP:
        import sys
        path = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        sys.path.append(path)
        try:
            import sympy
            _SP.append(sympy)
        except Exception:
            _SP.append(None)
        sys.path.remove(path)
    return _SP[0]


class FP(object):
    """evaluation homomorphism of terms into GF(2^127-1); functions by random oracle respecting
    exp(a+b)=exp(a)exp(b), log(ab)=log a+log b, the addition theorems of sin and cos, |x|sign(x)=x, oddness."""

    def __init__(self, seed, fixed=None):
        self.seed = str(seed)
        self.memo = {}
        self.mu = [self.rnd('mu', k) for k in range(KD)]
        self.fixed = fixed or {}
        self.exc = {}

    def rnd(self, *key):
        h = hashlib.blake2b((self.seed + '|' + '|'.join(map(str, key))).encode(), digest_size=24).digest()
        r = int.from_bytes(h, 'big') % P
        return r if r else 1

    # values are ints or tuples of KD ints
    def lift(self, f, *xs):
        if any(type(x) is tuple for x in xs):
            return tuple(f(*[x[k] if type(x) is tuple else x for x in xs]) for k in range(KD))
        return f(*xs)

    @staticmethod
    def inv(x):
        if x == 0:
            raise ZeroFP()
        return pow(x, -1, P)

    def root(self, x):
        r = pow(x, SQ, P)
        if r * r % P != x:
            raise NotQR()
        return r

    def frac(self, f):
        if f.denominator == 1:
            return f.numerator % P
        return f.numerator * pow(f.denominator, -1, P) % P

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._ev(t)
        return r

    def add2(self, x, y):
        return self.lift(lambda a, b: (a + b) % P, x, y)

    def mul2(self, x, y):
        return self.lift(lambda a, b: a * b % P, x, y)

    def _ev(self, t):
        o = t.op
        if o == 'c':
            return self.frac(t.a)
        if o == 'v':
            if t.a == 'N':
                return sum(self.mu) % P
            if t.a in self.fixed:
                return self(self.fixed[t.a])
            d = VARS[t.a]

            def one(*k):
                r = self.rnd('v', t.a, *k)
                return r * r % P if d['pos'] else r
            if d['data']:
                return tuple(one(k) for k in range(KD))
            return one()
        if o == '+':
            r = self.frac(t.b)
            for u, k in t.a:
                kk = self.frac(k)
                r = self.lift(lambda a, b: (a + kk * b) % P, r, self(u))
            return r
        if o == '*':
            r = 1
            for u, k in t.a:
                r = self.mul2(r, self.powf(u, k))
            return r
        if o == 'ite':
            from . import sym
            c = self.cond(t.a)
            return self.lift(lambda q, a, b: a if q else b, c, self(t.b[0]), self(t.b[1]))
        return self._fn(t)

    def powf(self, u, k):
        if u.op == 'f' and u.a == 'exp':
            return self.expf(u.b[0], k)
        if k.denominator == 1:
            e = int(k)
            return self.lift(lambda x: pow(x, e, P) if e > 0 else pow(self.inv(x), -e, P), self(u))
        if k.denominator == 2:
            e = k.numerator
            return self.lift(lambda x: pow(self.root(x), e, P) if e > 0 else pow(self.inv(self.root(x)), -e, P), self(u))
        if (k * DEXP).denominator == 1:
            # consistent roots through an oracle: b = h^DEXP is not related to fp(b): opaque but closed under powers
            def f(x):
                h = self.rnd('root', x)
                return pow(h, int(k * DEXP) % (P - 1), P)
            ip = k.numerator // k.denominator
            fr = k - ip
            r = self.lift(lambda x: pow(self.rnd('root', x), int(fr * DEXP), P), self(u))
            if ip:
                r = self.mul2(r, self.powf(u, Fr(ip)))
            return r
        return self.lift(lambda x: self.rnd('opow', k, x), self(u))

    def _exparg(self, t):
        e = self.exc.get(t.id)
        if e is None:
            try:
                e = expand(t, 200)
            except TooBig:
                e = t
            self.exc[t.id] = e
        return e

    def expf(self, t, k):
        """exp(t)^k"""
        e = self._exparg(t)
        ps, c = _addparts(e)
        r = 1
        if c != 0:
            r = self.mul2(r, self.oexp(1, c * k))
        for u, q in ps:
            if u.op == 'f' and u.a == 'log':
                r = self.mul2(r, self.powf(u.b[0], q * k))
            else:
                r = self.mul2(r, self.oexp(self(u), q * k))
        return r

    def oexp(self, v, k):
        """exp(v)^k with v a field value"""
        e = k * DEXP
        if e.denominator != 1:
            return self.lift(lambda x: self.rnd('oexp', k, x), v)
        e = int(e)

        def f(x):
            # canonical sign
            y = P - x
            s = 1
            if y < x:
                x, s = y, -1
            h = self.rnd('exp', x)
            return pow(h, (s * e) % (P - 1), P)
        return self.lift(f, v)

    # --- complex units
    def unit(self, v, k):
        """unit complex number at angle k*v"""
        e = k * DTRIG
        if e.denominator != 1:
            e, v = Fr(DTRIG), self.lift(lambda x: self.rnd('otrig', k, x), v)
        e = int(e)

        def f(x):
            y = P - x
            s = 1
            if y < x:
                x, s = y, -1
            if x == self(PI) or P - x == self(PI):
                sg = 1 if x == self(PI) else -1
                z = _pi_unit()
                return cpow(z, s * sg * e)
            a, b = self.rnd('tr', x), self.rnd('ti', x)
            n = self.inv((a * a + b * b) % P)
            z = ((a * a - b * b) * n % P, 2 * a * b * n % P)
            return cpow(z, s * e)
        if type(v) is tuple:
            return [f(x) for x in v]
        return f(v)

    def trig(self, t):
        e = self._exparg(t)
        ps, c = _addparts(e)
        r = (1, 0)
        if c != 0:
            r = self.cmul(r, self.unit(1, c))
        for u, q in ps:
            r = self.cmul(r, self.unit(self(u), q))
        return r

    def cmul(self, a, b):
        if type(a) is list or type(b) is list:
            return [cmul(a[k] if type(a) is list else a, b[k] if type(b) is list else b) for k in range(KD)]
        return cmul(a, b)

    def logabs(self, t):
        """log|t|"""
        if t.op == '+':
            f = factors(t)
            if f is not None:
                r = 0
                for u, x in f:
                    v, xx = self.logabs(u), self.frac(x)
                    r = self.lift(lambda a, b: (a + xx * b) % P, r, v)
                return r
        k, m = _split(t)
        r = 0
        for base, sg in ((abs(k.numerator), 1), (k.denominator, -1)):
            for p, n in _factor(base).items():
                r = (r + sg * n * self.rnd('logp', p)) % P
        if m is ONE:
            return r
        parts = _mulparts(m)
        if len(parts) == 1 and parts[0][1] == 1 and parts[0][0].op == '+':
            # content and monomial factor of a sum
            u = parts[0][0]
            lead = u.a[0][1] if u.a else Fr(1)
            cf = abs(lead)
            if cf != 1:
                return self.add2(self.logabs(const(cf)), self.add2(r, self.logabs(scale(u, 1 / cf))))
            g = None
            if u.b == 0:
                for v, _ in u.a:
                    f = {w: x for w, x in _mulparts(v)}
                    if g is None:
                        g = f
                    else:
                        g = {w: min(x, f[w]) if x > 0 else x for w, x in g.items()
                             if w in f and ((x > 0) == (f[w] > 0)) and (x > 0 or x == f[w])}
                if g:
                    gm = _mkmul(g, Fr(1))
                    ui = powr(gm, -1)
                    u2 = add(*[scale(mul(v, ui), q) for v, q in u.a])
                    return self.add2(self.logabs(gm), self.add2(r, self.logabs(u2)))
        for u, x in parts:
            if u.op == 'f' and u.a == 'exp':
                v = self(u.b[0])
            elif u.op == 'c':
                v = self.logabs(u)
            elif u.op == '+' and len(parts) > 1:
                v = self.logabs(u)
            elif u.op == '*':
                v = self.logabs(u)
            elif u.op == 'f' and u.a == 'abs':
                v = self.logabs(u.b[0])
            else:
                w = self(u)
                v = self.lift(lambda z: self.rnd('log', min(z, P - z)), w)
            xx = self.frac(x)
            r = self.lift(lambda a, b: (a + xx * b) % P, r, v)
        return r

    def _fn(self, t):
        n, a = t.a, t.b
        if n == 'sum':
            v = self(a[0])
            if type(v) is not tuple:
                v = (v,) * KD
            return sum(m * x for m, x in zip(self.mu, v)) % P
        if n == 'exp':
            return self.expf(a[0], Fr(1))
        if n == 'sin' or n == 'cos':
            z = self.trig(a[0])
            j = 1 if n == 'sin' else 0
            return tuple(q[j] for q in z) if type(z) is list else z[j]
        if n == 'sinh' or n == 'cosh':
            e1, e2 = self.expf(a[0], Fr(1)), self.expf(a[0], Fr(-1))
            s = 1 if n == 'cosh' else -1
            h = pow(2, -1, P)
            return self.lift(lambda x, y: (x + s * y) * h % P, e1, e2)
        if n == 'tanh':
            e1, e2 = self.expf(a[0], Fr(1)), self.expf(a[0], Fr(-1))
            return self.lift(lambda x, y: (x - y) * self.inv((x + y) % P) % P, e1, e2)
        if n == 'log':
            return self.logabs(a[0])
        if n == 'abs':
            return self.lift(lambda x: x if self.psign(x) else P - x, self(a[0]))
        if n == 'sign':
            return self.lift(lambda x: 1 if self.psign(x) else P - 1, self(a[0]))
        if n == 'erfc':
            return self.lift(lambda x: (1 - x) % P, self(fn('erf', a[0])))
        if n in ODD:
            def f(x):
                y = P - x
                return self.rnd(n, x) if x < y else P - self.rnd(n, y)
            return self.lift(f, self(a[0]))
        if n == 'wofz_re' or n == 'wofz_im':      # w(-x+iy) = conj(w(x+iy))
            def f(x, y):
                s = 1
                if P - x < x:
                    x, s = P - x, -1
                r = self.rnd(n, x, y)
                return r if n == 'wofz_re' or s == 1 else P - r
            return self.lift(f, self(a[0]), self(a[1]))
        return self.lift(lambda *x: self.rnd(n, *x), *[self(u) for u in a])

    def psign(self, x):
        """is x 'positive'?  quadratic residues play the positive numbers"""
        return pow(x, (P - 1) // 2, P) == 1

    def cond(self, c):
        """pseudo-random truth value of a condition, consistent per field value of its term"""
        k = c[0]
        if k == 'and':
            r = 1
            for q in c[1]:
                r = self.lift(lambda a, b: a & b, r, self.cond(q))
            return r
        if k == 'or':
            r = 0
            for q in c[1]:
                r = self.lift(lambda a, b: a | b, r, self.cond(q))
            return r
        v = self(c[1])

        def f(x):
            # normalise: x<0, x<=0 through the sign of x ; equality false generically
            y = P - x
            s = 1
            if y < x:
                x, s = y, -1
            b = 1 if self.psign(x) else -1       # sign of |..| representative
            b *= s
            if k == '==':
                return 0
            if k == '!=':
                return 1
            return 1 if b < 0 else 0
        return self.lift(f, v)


def cmul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def cpow(z, e):
    if e < 0:
        z, e = (z[0], P - z[1]), -e
    r = (1, 0)
    while e:
        if e & 1:
            r = cmul(r, z)
        z = cmul(z, z)
        e >>= 1
    return r


_pu = []


def _pi_unit():
    """z with z^DTRIG = -1 (angle pi/DTRIG up to choice of root)"""
    if not _pu:
        # norm-1 group of GF(p^2) has order p+1 = 2^127 ; take an element of order 2^7 whose 32th power is i
        a = 3
        while True:
            b = 5
            n = pow((a * a + b * b) % P, -1, P)
            g = ((a * a - b * b) * n % P, 2 * a * b * n % P)
            z = cpow(g, 1 << 120)          # order divides 2^7
            if cpow(z, 64) == (P - 1, 0):
                break
            a += 1
        # want w with w^(64*45) = -1 and w^(32*45) = +i  -> w = z^m with 45 m = odd fix
        inv45 = pow(45, -1, 128)
        w = cpow(z, inv45)
        if cpow(w, 32 * 45) != (0, 1):
            w = (w[0], P - w[1])
        _pu.append(w)
    return _pu[0]


def equal_fp(a, b, rounds=2, seed=0, fixed=None, tries=3000):
    """True: identity over the reals (up to probability ~2^-100). False: not shown."""
    if a is b:
        return True
    if sub(a, b) is ZERO:
        return True
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    ok = 0
    for k in range(tries):
        f = FP('%s.%d' % (seed, k), fixed)
        try:
            if f(a) != f(b):
                va, vb = f(a), f(b)
                if type(va) is tuple or type(vb) is tuple:
                    va = va if type(va) is tuple else (va,) * KD
                    vb = vb if type(vb) is tuple else (vb,) * KD
                    if va == vb:
                        ok += 1
                        if ok >= rounds:
                            return True
                        continue
                return False
            ok += 1
            if ok >= rounds:
                return True
        except (NotQR, ZeroFP):
            continue
    return False


def show(t, depth=0):
    if depth > 12:
        return '...'
    if t.op == 'c':
        return str(t.a)
    if t.op == 'v':
        return t.a
    if t.op == '+':
        s = ' + '.join(('%s*' % k if k != 1 else '') + show(u, depth + 1) for u, k in t.a)
        return '(%s%s)' % (s, ' + %s' % t.b if t.b else '')
    if t.op == '*':
        return '*'.join(show(u, depth + 1) + ('^(%s)' % k if k != 1 else '') for u, k in t.a)
    if t.op == 'ite':
        return 'ite(%s, %s, %s)' % (cshow(t.a), show(t.b[0], depth + 1), show(t.b[1], depth + 1))
    return '%s(%s)' % (t.a, ', '.join(show(u, depth + 1) for u in t.b))


def cshow(c):
    if c is True or c is False:
        return str(c)
    if c[0] in ('and', 'or'):
        return '(' + (' %s ' % c[0]).join(cshow(x) for x in c[1]) + ')'
    return '%s %s 0' % (show(c[1]), c[0])
