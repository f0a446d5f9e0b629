"""Scenarios: one text, two readings.

A scenario states a contract: it builds pre-states within the precondition, calls the real function, and states
postconditions (eq, le, ok, jac, ...).  With a SymCtx the same text runs the symbolic copy of the source on symbolic
values: every postcondition on every path is an obligation, discharged for all values.  With a RealCtx it runs the
untouched code on floating point numbers: that is how counterexamples are replayed, and it is the bounded check."""
import math, time, random, hashlib, traceback, os, sys, zlib
from fractions import Fraction as Fr
import numpy as np
from . import terms as tm, sym, garr, npshim, loader
from .sym import S, SBool, GLen, Unsupported, PathEnd, term, cond, mkbool, cmp_

SCEN = {}        # property -> list of Scenario


class Scenario(object):
    def __init__(self, prop, name, f, mode, args, nreal, maxpaths, n, timeout, note, funcs):
        self.prop, self.name, self.f, self.mode, self.args = prop, name, f, mode, args
        self.nreal, self.maxpaths, self.n, self.timeout, self.note = nreal, maxpaths, n, timeout, note
        self.funcs = funcs

    def __call__(self, ctx):
        return self.f(ctx, *self.args)


def scenario(prop, name=None, mode='proof', args=(), nreal=24, maxpaths=400, n=None, timeout=240, note='', funcs=()):
    """mode 'proof': obligations discharged for all inputs (and sampled); 'bounded': sampled only.
    n: fixed number of data points (None: any number)"""
    def deco(f):
        SCEN.setdefault(prop, []).append(Scenario(prop, name or f.__name__, f, mode, args, nreal, maxpaths, n, timeout, note, list(funcs)))
        return f
    return deco


def add(prop, name, f, *args, **kw):
    scenario(prop, name, args=args, **kw)(f)


# ---------------------------------------------------------------- abstract functions
def uw(name, n):
    r = random.Random(zlib.crc32(name.encode()))
    return [r.uniform(0.3, 0.9) * r.choice([-1, 1]) for _ in range(n)], r.uniform(0, 6)


def ueval(name, args):
    """concrete stand-in of an abstract function and its derivatives: 2 + sin(w.a + phi)"""
    base, *ds = name.split("'")
    w, phi = uw(base, len(args))
    z = phi
    for a, b in zip(w, args):
        z = z + a * b
    k = len(ds)
    c = 1.0
    for d in ds:
        c *= w[int(d)]
    v = [np.sin, np.cos, lambda q: -np.sin(q), lambda q: -np.cos(q)][k % 4](z)
    return c * v + (2.0 if k == 0 else 0.0)


# ---------------------------------------------------------------- common part
class Fail(Exception):
    pass


class Ctx(object):
    sym = False

    def note(self, s):
        pass

    def vec(self, name, n, pos=(), nonzero=(), lo=None, hi=None, special=()):
        if pos is True:
            pos = range(n)
        els = []
        for i in range(n):
            l = lo[i] if isinstance(lo, (list, tuple)) else lo
            h = hi[i] if isinstance(hi, (list, tuple)) else hi
            els.append(self.real('%s%d' % (name, i), pos=i in pos, nonzero=i in nonzero, lo=l, hi=h, special=special))
        return self.array(els)

    def model(self, name, *a, **kw):
        return self.cls(name)(*a, **kw)

    def mvec(self, m, name='p', **kw):
        """parameters in the domain of simple model m"""
        return self.vec(name, m.npars, pos=[int(k) for k in m.posIndex], nonzero=[int(k) for k in m.nonZero], **kw)


class RngStub(object):
    """scripted random generator for the real code"""
    def __init__(self, ctx):
        self.ctx = ctx

    def _shape(self, f, shape):
        if not shape:
            return f()
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        r = np.empty(shape)
        for i in np.ndindex(*r.shape):
            r[i] = f()
        return r

    def rand(self, *shape):
        return self._shape(lambda: self.ctx.fresh('rand', lambda r: r.choice([0.0, 0.5, 0.999]) if r.random() < 0.06 else r.random()), shape)

    def random_sample(self, size=None):
        return self.rand(*(() if size is None else (size,)))

    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.rand(*(() if size is None else (size,)))

    def randn(self, *shape):
        return self._shape(lambda: self.ctx.fresh('randn', lambda r: r.gauss(0, 1)), shape)

    def normal(self, loc=0, scale=1, size=None):
        return loc + scale * self.randn(*(() if size is None else (size,)))

    def standard_normal(self, size=None):
        return self.randn(*(() if size is None else (size,)))

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        one = lambda: int(low) + self.ctx.choose_(int(high) - int(low))
        return one() if size is None else np.array([one() for _ in range(size)])

    def permutation(self, n):
        a = list(range(n)) if isinstance(n, (int, np.integer)) else list(n)
        out = []
        while a:
            out.append(a.pop(self.ctx.choose_(len(a)) if len(a) > 1 else 0))
        return np.array(out)

    def geometric(self, p, size=None):
        return 1 + self.ctx.choose_(3)

    def choice(self, n, size=None, replace=True, p=None):
        raise NotImplementedError

    def seed(self, s=None):
        pass

    def __deepcopy__(self, memo):
        return self


class RealCtx(Ctx):
    def __init__(self, seed, env=None, trace=None, n=None):
        self.r = random.Random(seed)
        self.env = dict(env or {})
        self.used = {}
        self.trace = list(trace) if trace is not None else None
        self.ntr = 0
        self.choices = []
        self.cnt = {}
        self.n = n
        self.fails = []
        self.ndata = None
        self.checks = 0
        self.np = np
        self.tol = 1e-6
        self.nsp = np.random.RandomState(seed % (2 ** 31))

    def N(self):
        if self.ndata is None:
            self.ndata = self.n if self.n is not None else int(self.env.get('N', self.r.choice([1, 2, 3, 4, 5, 6, 7])))
            self.used['N'] = self.ndata
        return self.ndata

    def cls(self, name):
        return loader.realcls(name)

    def mod(self, name):
        return loader.realmod(name)

    def _num(self, pos, nonzero, lo, hi, special):
        r = self.r
        if special and r.random() < 0.3:
            return float(r.choice(special))
        if lo is not None and hi is not None:
            return lo + (hi - lo) * (r.random() if r.random() < 0.9 else r.choice([0.0, 1.0, 0.5]))
        if lo is not None:
            return lo + math.exp(r.gauss(0, 1))
        if hi is not None:
            return hi - math.exp(r.gauss(0, 1))
        if pos:
            return float(r.choice([0.5, 1.0, 2.0])) if r.random() < 0.1 else math.exp(r.gauss(0, 0.7))
        v = float(r.choice([0.0, 1.0, -1.0, 2.0])) if r.random() < 0.12 else r.gauss(0, 1.5)
        if nonzero and v == 0:
            v = 0.7
        return v

    def real(self, name, pos=False, nonzero=False, lo=None, hi=None, special=()):
        if name in self.used:
            return self.used[name]
        if name in self.env:
            v = float(self.env[name])
        else:
            v = self._num(pos, nonzero, lo, hi, special)
        self.used[name] = v
        return v

    def array(self, els):
        return np.array(els, dtype=float)

    def data(self, name, pos=False, k=None, lo=None, hi=None, nonneg=False, special=()):
        n = self.N()
        if k is not None:
            return np.array([self.data('%s.%d' % (name, i), pos, None, lo, hi, nonneg) for i in range(k)]).T.reshape(n, k)
        if name in self.env:
            v = np.resize(np.array(self.env[name], dtype=float), n)
        else:
            v = np.array([self._num(pos or nonneg, False, lo, hi, special) for _ in range(n)])
            if nonneg and self.r.random() < 0.3:
                v[self.r.randrange(n)] = 0.0
        self.used[name] = v.tolist()
        return v

    def const(self, v):
        return float(v)

    def fresh(self, base, draw):
        k = self.cnt.get(base, 0)
        self.cnt[base] = k + 1
        nm = '%s!%d' % (base, k)
        if nm in self.env:
            v = float(self.env[nm])
        else:
            v = draw(self.r)
        self.used[nm] = v
        return v

    def choose_(self, n):
        if self.trace is not None and self.ntr < len(self.trace):
            k = self.trace[self.ntr] % n
        else:
            k = self.r.randrange(n)
        self.ntr += 1
        self.choices.append(k)
        return k

    def choose(self, options):
        options = list(options)
        return options[self.choose_(len(options))]

    def int(self, lo, hi):
        return lo + self.choose_(hi - lo + 1)

    def rng(self):
        return RngStub(self)

    def ufun(self, name):
        return lambda *a: ueval('U:' + name, a)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise PathEnd()

    def fail(self, label, detail):
        self.fails.append((label, detail))

    def eq(self, label, a, b, tol=None):
        self.checks += 1
        tol = tol or self.tol
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if a is not b and a != b:
                self.fail(label, '%r differs from %r' % (a, b))
            return
        if a.shape != b.shape and a.size != 1 and b.size != 1:
            self.fail(label, 'shape %s instead of %s' % (a.shape, b.shape))
            return
        if a.shape != b.shape:
            a, b = np.broadcast_arrays(a, b) if a.ndim == 0 or b.ndim == 0 else (a, b)
            if a.shape != b.shape:
                self.fail(label, 'shape %s instead of %s' % (a.shape, b.shape))
                return
        if not a.size:
            return
        with np.errstate(all='ignore'):
            fin = np.isfinite(b)
            bad = fin & ~np.isfinite(a)
            bad |= np.isinf(b) & np.isfinite(a)
            bad |= np.isinf(b) & np.isinf(a) & (a != b)
            m = fin & np.isfinite(a)
            sc = np.max(np.abs(b[m])) if m.any() else 0.0
            sc = max(min(sc, 1e9), 1e-3)
            bad |= m & (np.abs(a - b) > tol * (np.maximum(np.abs(a), np.abs(b)) + sc))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if a.ndim else ()
            self.fail(label, 'got %r, expected %r%s' % (float(a[i]), float(b[i]), ' at %s' % (i,) if i else ''))

    def le(self, label, a, b, tol=None, hints=()):
        self.checks += 1
        tol = tol or 1e-8
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all='ignore'):
            bad = a > b + tol * (1 + np.minimum(np.abs(a), np.abs(b)))
        bad = np.atleast_1d(bad)
        if bad.any():
            self.fail(label, 'got %r, must not exceed %r' % (a.tolist(), b.tolist()))

    def ok(self, label, c, hints=()):
        self.checks += 1
        if not np.all(c):
            self.fail(label, 'condition is false')

    def same(self, label, a, b):
        """exact structural equality of non-numeric values"""
        self.checks += 1
        if not (a is b or a == b):
            self.fail(label, '%r instead of %r' % (a, b))

    def jac(self, label, f, p, dp, tol=None):
        """dp[..., k] is the derivative of f(p) to p[k]"""
        p = np.array(p, dtype=float)
        dp = np.asarray(dp, dtype=float)
        y = np.asarray(f(p.copy()), dtype=float)
        if dp.shape != y.shape + (len(p),):
            self.fail(label, 'shape %s instead of %s' % (dp.shape, y.shape + (len(p),)))
            return
        for k in range(len(p)):
            def g(h):
                q = p.copy()
                q[k] += h
                return np.asarray(f(q), dtype=float)
            self._num_der('%s[%d]' % (label, k), g, dp[..., k], abs(p[k]), tol)

    def ddata(self, label, f, x, dx, tol=None):
        x = np.asarray(x, dtype=float)
        if np.asarray(dx).shape != x.shape:
            self.fail(label, 'shape %s instead of %s' % (np.asarray(dx).shape, x.shape))
            return
        self._num_der(label, lambda h: np.asarray(f(x + h), dtype=float), np.asarray(dx, dtype=float), 1.0, tol)

    def dscalar(self, label, f, x, dx, tol=None):
        self._num_der(label, lambda h: np.asarray(f(x + h), dtype=float), np.asarray(dx, dtype=float), abs(x), tol)

    def _num_der(self, label, g, d, sc, tol=None):
        """central differences with two steps; a violation only where they agree with each other and with one-sided slopes"""
        self.checks += 1
        tol = tol or 2e-4
        with np.errstate(all='ignore'):
            h = 2e-4 * (1 + sc) if sc < 50 else 1e-4 * sc
            h = float(np.float32(h))
            g0 = g(0.0)
            a1, a2, b1, b2 = g(h), g(-h), g(h / 2), g(-h / 2)
            d1, d2 = (a1 - a2) / (2 * h), (b1 - b2) / h
            num = d2 + (d2 - d1) / 3
            err = np.abs(d2 - d1) + np.abs((b1 - g0) - (g0 - b2)) * 2 / h * 0.02 + 1e-11 * np.abs(g0) / h
            # kink or jump nearby: the one-sided slopes differ and do not converge
            r1, r2 = (b1 - g0) * 2 / h - (g0 - b2) * 2 / h, (a1 - g0) / h - (g0 - a2) / h
            kink = (np.abs(r1) > 1e-3 * (1 + np.abs(num))) & (np.abs(r1) > 0.75 * np.abs(r2))
            bad = np.abs(num - d) > 20 * err + tol * (np.maximum(np.abs(num), np.abs(d))) + 1e-6
            bad &= np.isfinite(num) & np.isfinite(err) & ~kink
            bad |= np.isfinite(num) & ~np.isfinite(d) & ~kink & (err < 1e-3 * (1 + np.abs(num)))
        bad = np.atleast_1d(bad)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            num, d = np.atleast_1d(num), np.atleast_1d(d)
            self.fail(label, 'derivative reported %r, difference quotient %r at %s' % (float(np.broadcast_to(d, num.shape)[i]), float(num[i]), i))

    def raises(self, label, exc, f):
        self.checks += 1
        try:
            f()
        except exc:
            return
        except PathEnd:
            raise
        except Exception as e:
            self.fail(label, 'raised %s' % type(e).__name__)
            return
        self.fail(label, 'did not raise')

    def snap(self, *arrs):
        return [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in arrs]

    def unchanged(self, label, arrs, snaps):
        self.checks += 1
        for a, s in zip(arrs, snaps):
            if isinstance(a, np.ndarray):
                if a.shape != s.shape or not np.array_equal(a, s, equal_nan=a.dtype.kind == 'f'):
                    self.fail(label, 'changed from %s to %s' % (s.tolist(), a.tolist()))
            elif a != s:
                self.fail(label, 'changed from %r to %r' % (s, a))

    def where(self, c, a, b):
        return np.where(c, a, b)

    def total(self, x):
        return np.sum(x)


# ---------------------------------------------------------------- symbolic reading
class Ob(object):
    __slots__ = ('label', 'status', 'by', 'time', 'detail', 'cand')

    def __init__(self, label, status, by, t, detail='', cand=None):
        self.label, self.status, self.by, self.time, self.detail, self.cand = label, status, by, t, detail, cand


_eqcache = {}


def atoms_of(t):
    r = []
    for u in tm.subterms(t).values():
        if u.op == 'ite':
            for a in sym.catoms(u.a):
                if a not in r:
                    r.append(a)
        elif u.op == 'f' and u.a in ('abs', 'sign') and not _insum(t, u):
            pass
    return r


def _insum(t, u):
    return False


def norm_atom(a):
    """positive literal over t: one of ('<',t) ('==',t)"""
    return a


class SymCtx(Ctx):
    sym = True

    def __init__(self, sc, obs, seed):
        self.np = loader.NP
        self.sc, self.obs, self.seed = sc, obs, seed
        self.vars = {}
        self.reached = 0
        self.tol = None
        self.e = sym.engine()

    def N(self):
        return GLen() if self.sc.n is None else self.sc.n

    def cls(self, name):
        return loader.symcls(name)

    def mod(self, name):
        return loader.symmod(name)

    def real(self, name, pos=False, nonzero=False, lo=None, hi=None, special=()):
        nm = '%s/%s' % (self.sc.name, name)
        pos = pos or (lo is not None and lo > 0)
        v = S(tm.var(nm, pos=pos))
        self.vars[name] = nm
        if nonzero and not pos:
            self.e.assume(cond(v != 0))
        if lo is not None and not (lo == 0 and pos):
            self.e.assume(cond(v >= sym.wrap(lo)))
        if hi is not None:
            self.e.assume(cond(v <= sym.wrap(hi)))
        return v

    def array(self, els):
        r = np.empty(len(els), dtype=object)
        for i, v in enumerate(els):
            r[i] = sym.wrap(v)
        return garr.ga_keep(r)

    def data(self, name, pos=False, k=None, lo=None, hi=None, nonneg=False, special=()):
        if k is not None:
            cols = [self.data('%s.%d' % (name, i), pos, None, lo, hi, nonneg) for i in range(k)]
            return loader.NP.array(cols).transpose().copy()
        if self.sc.n is not None:
            return self.array([self._dv('%s#%d' % (name, i), False, pos, lo, hi, nonneg) for i in range(self.sc.n)])
        v = self._dv(name, True, pos, lo, hi, nonneg)
        return garr.full((GLen(),), v)

    def _dv(self, name, data, pos, lo, hi, nonneg):
        nm = '%s/%s' % (self.sc.name, name)
        pos = pos or (lo is not None and lo > 0)
        v = S(tm.var(nm, data=data, pos=pos))
        self.vars[name] = nm
        for c in ([v >= sym.wrap(lo)] if lo is not None and not pos else []) + ([v <= sym.wrap(hi)] if hi is not None else []) + ([v >= 0] if nonneg else []):
            self.e.assume(cond(c))
        return v

    def const(self, v):
        return sym.wrap(v)

    def choose(self, options):
        options = list(options)
        return options[self.e.choose(len(options))]

    def int(self, lo, hi):
        return lo + self.e.choose(hi - lo + 1)

    def rng(self):
        return npshim.RandomState()

    def ufun(self, name):
        return lambda *a: garr.apply_el(lambda *b: S(tm.fn('U:' + name, *[term(x) for x in b])), a)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in garr.obj(c).ravel():
                self.assume(mkbool(cond(x)))
            return
        c = cond(c)
        self.e.assume(c)
        if c is not True and sym.check_sat(self.e.pc) == 'unsat':
            raise PathEnd()

    # ---- obligations
    def _add(self, label, status, by, t0, detail='', cand=None):
        self.obs.append(Ob(label, status, by, time.time() - t0, detail, cand))

    def eq(self, label, a, b, tol=None):
        t0 = time.time()
        a, b = npshim.asarray(a) if isinstance(a, (list, tuple)) else a, npshim.asarray(b) if isinstance(b, (list, tuple)) else b
        if isinstance(a, GLen):
            a = a._s()
        if isinstance(b, GLen):
            b = b._s()
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            sa, sb = garr.shadow(a), garr.shadow(b)
            if sa.shape != sb.shape and not (sa.ndim == 0 or sb.ndim == 0):
                self._add(label, 'refuted', 'shape', t0, 'shape %s instead of %s' % (sa.shape, sb.shape), {})
                return
            ra, rb = np.broadcast_arrays(garr.obj(a), garr.obj(b))
            if not ra.size:
                if ra.shape and isinstance(a, garr.GA):
                    self._add(label, 'proved', 'structure', t0)
                return
            # data values without a data axis would be a modelling error
            for q in (a, b):
                if isinstance(q, np.ndarray) and getattr(q, 'dax', None) is None and any(garr.isdat(x) for x in garr.obj(q).ravel()):
                    raise Unsupported('data values off the data axis')
            for i in np.ndindex(*ra.shape):
                self._eq1(label + (str(list(i)) if ra.ndim else ''), ra[i], rb[i])
            return
        self._eq1(label, a, b)

    def _eq1(self, label, a, b):
        t0 = time.time()
        ta, tb = term(a), term(b)
        if ta is None or tb is None:
            okk = (a == b) if not (isinstance(a, garr.CS) or isinstance(b, garr.CS)) else None
            if okk is None:
                self._eq1(label + '.re', garr.s_real(a), garr.s_real(b))
                self._eq1(label + '.im', garr.s_imag(a), garr.s_imag(b))
                return
            okk = bool(okk) or (a != a and b != b)
            self._add(label, 'proved' if okk else 'refuted', 'constant', t0, '%s instead of %s' % (a, b), None if okk else self.candidate(None))
            return
        st, by, cand = prove_eq(ta, tb, self.e.pc)
        if st != 'proved':
            cand = self.candidate((ta, tb)) if cand is None else cand
        self._add(label, st, by, t0, '' if st == 'proved' else 'got %s\nexpected %s' % (tm.show(ta), tm.show(tb)), cand)

    def le(self, label, a, b, tol=None, hints=()):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ra, rb = np.broadcast_arrays(garr.obj(a), garr.obj(b))
            for i in np.ndindex(*ra.shape):
                self.le(label + str(list(i)), ra[i], rb[i], tol, hints)
            return
        self.ok(label, garr._n(a) <= garr._n(b), hints)

    def ok(self, label, c, hints=()):
        t0 = time.time()
        if isinstance(c, np.ndarray):
            for i, x in np.ndenumerate(garr.obj(c)):
                self.ok(label + str(list(i)), x, hints)
            return
        c = cond(c)
        if c is True:
            self._add(label, 'proved', 'structure', t0)
            return
        st, by = prove_cond(c, self.e.pc, hints)
        cand = None
        if st != 'proved':
            cand = self.candidate(None, sym.cnot(c))
        self._add(label, st, by, t0, '' if st == 'proved' else tm.cshow(c), cand)

    def same(self, label, a, b):
        t0 = time.time()
        r = a is b or a == b
        if not r and sym.check_sat(self.e.pc, timeout=10000) == 'unsat':
            self._add(label, 'proved', 'infeasible path', t0)
            return
        self._add(label, 'proved' if r else 'refuted', 'structure', t0, '' if r else '%r instead of %r' % (a, b), None if r else self.candidate(None))

    def jac(self, label, f, p, dp, tol=None):
        t0 = time.time()
        y = f(p.copy() if isinstance(p, garr.GA) else p)
        n = garr.rshape(p)[0]
        ysh = garr.shadow(y).shape if isinstance(y, np.ndarray) else ()
        dsh = garr.shadow(dp).shape if isinstance(dp, np.ndarray) else ()
        if dsh != ysh + (n,):
            self._add(label, 'refuted', 'shape', t0, 'shape %s instead of %s' % (dsh, ysh + (n,)), self.candidate(None))
            return
        if n == 0:
            self._add(label, 'proved', 'structure', t0)
            return
        ry, rd = garr.obj(y), garr.obj(dp)
        names = [x.t.a for x in garr.obj(p)]
        eqv = self.eqvars()
        for i in np.ndindex(*ry.shape):
            memo = [None] * n
            for k in range(n):
                self._der('%s%s[%d]' % (label, list(i) if ry.ndim else '', k), ry[i], names[k], rd[i + (k,)], eqv)

    def eqvars(self):
        """variables pinned by an equality on this path: no two-sided derivative there"""
        r = set()
        for c in self.e.pc[self.npre:] if hasattr(self, 'npre') else self.e.pc:
            if c[0] == '==':
                r |= tm.movers(c[1])
        return r

    def _der(self, label, y, name, d, eqv):
        t0 = time.time()
        ty, td = term(y), term(d)
        if ty is None or td is None:
            self._add(label, 'refuted', 'constant', t0, 'non-finite %r %r' % (y, d), self.candidate(None))
            return
        if name in eqv:
            self._add(label, 'skipped', 'branch boundary', t0)
            return
        try:
            dt = tm.diff(ty, name)
        except NotImplementedError as ex:
            raise Unsupported(str(ex))
        st, by, cand = prove_eq(td, dt, self.e.pc, nodeq=name)
        if st != 'proved':
            cand = self.candidate((td, dt)) if cand is None else cand
        self._add(label, st, by, t0, '' if st == 'proved' else 'reported %s\nderivative %s\nof %s' % (tm.show(td), tm.show(dt), tm.show(ty)), cand)

    def ddata(self, label, f, x, dx, tol=None):
        y = f(x)
        if garr.shadow(y).shape != garr.shadow(dx).shape:
            self._add(label, 'refuted', 'shape', time.time(), '', self.candidate(None))
            return
        rx, ry, rd = garr.obj(x), garr.obj(y), garr.obj(dx)
        eqv = self.eqvars()
        for i in np.ndindex(*ry.shape):
            for j in np.ndindex(*rx.shape):
                if j == i:
                    self._der('%s%s' % (label, list(i)), ry[i], rx[j].t.a, rd[i], eqv)

    def dscalar(self, label, f, x, dx, tol=None):
        self._der(label, f(x), x.t.a, dx, self.eqvars())

    def raises(self, label, exc, f):
        t0 = time.time()
        try:
            f()
        except PathEnd:
            raise
        except Unsupported:
            raise
        except exc:
            self._add(label, 'proved', 'structure', t0)
            return
        except Exception as ex:
            self._add(label, 'refuted', 'structure', t0, 'raised %r' % ex, self.candidate(None))
            return
        self._add(label, 'refuted', 'structure', t0, 'did not raise', self.candidate(None))

    def snap(self, *arrs):
        return [garr._raw(a).copy() if isinstance(a, garr.GA) else np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in arrs]

    def unchanged(self, label, arrs, snaps):
        for n, (a, s) in enumerate(zip(arrs, snaps)):
            if isinstance(a, garr.GA):
                t0 = time.time()
                if garr.rshape(a) != s.shape:
                    self._add(label, 'refuted', 'shape', t0, '', self.candidate(None))
                    continue
                for i in np.ndindex(*s.shape):
                    self._eq1('%s[%d]%s' % (label, n, list(i)), garr._raw(a)[i], s[i])
            elif isinstance(a, np.ndarray):
                r = a.shape == s.shape and (a == s).all()
                self._add(label, 'proved' if r else 'refuted', 'structure', time.time(), '', None if r else self.candidate(None))
            else:
                self.eq('%s[%d]' % (label, n), a, s) if isinstance(a, (S, int, float)) else self.same(label, a, s)

    def where(self, c, a, b):
        return npshim.where(c, a, b)

    def total(self, x):
        return npshim.OVER['sum'](x)

    # ---- candidates for replay
    def candidate(self, pair, extra=None):
        """numbers satisfying the path condition (and separating the pair)"""
        return find_cand(self.e.pc, pair, extra, self.seed, self.e.choices())


def _choices(e):
    return [k for k, n, c in getattr(e, 'ctrace', []) if c]


def find_cand(pc, pair, extra, seed, choices, tries=250):
    rng = random.Random(seed)
    conds = [c for c in pc if c is not True] + ([extra] if extra is not None and extra is not True else [])
    ts = [t for c in conds for t in sym.cterms(c)] + ([x for x in pair] if pair else [])
    names = set()
    for t in ts:
        names |= tm.fvars(t)
    names.discard('pi')
    fixed = {}
    if conds:
        st, env = sym.check_sat(conds, timeout=2000, model=True)
        if st == 'sat' and env:
            fixed = env
    best = None
    for k in range(tries):
        n = 3
        env = {'N': n}
        for v in names:
            d = tm.VARS[v]
            if v == 'N':
                continue

            def one():
                if k % 3 == 2 and v in fixed and rng.random() < 0.75:
                    return fixed[v]
                if k == 0 and v in fixed:
                    return fixed[v]
                if v.startswith('rand!'):
                    return rng.random()
                x = rng.gauss(0, 1.5) if rng.random() < 0.8 else rng.choice([0., 1., -1., 2., .5])
                if d['pos']:
                    x = abs(x) + 0.05
                return x
            env[v] = np.array([one() for _ in range(n)]) if d['data'] else one()
        try:
            with np.errstate(all='ignore'):
                memo = {}
                ev = lambda t: tm.evalf(t, env, ueval, memo)
                if not all(np.all(sym.cevalf(c, ev)) for c in conds):
                    continue
                if pair is not None:
                    a, b = np.asarray(ev(pair[0]), dtype=float), np.asarray(ev(pair[1]), dtype=float)
                    if not (np.isfinite(a).all() and np.isfinite(b).all()):
                        if not np.isfinite(b).all():
                            continue
                    elif np.all(np.abs(a - b) <= 1e-7 * (np.abs(a) + np.abs(b) + 1e-2)):
                        if best is None:
                            best = dict(env=env, separates=False)
                        continue
                best = dict(env=env, separates=True)
                break
        except Exception:
            continue
    if best is None:
        if not names:
            best = dict(env={}, separates=pair is None)
        else:
            return None
    out = {}
    for v, x in best['env'].items():
        nm = v.split('/', 1)[1] if '/' in v else v
        out[nm] = x.tolist() if isinstance(x, np.ndarray) else x
    # data columns: merge '#i'
    mer = {}
    for nm in list(out):
        if '#' in nm:
            b, i = nm.rsplit('#', 1)
            mer.setdefault(b, {})[int(i)] = out.pop(nm)
    for b, d in mer.items():
        out[b] = [d.get(i, 0.5) for i in range(max(d) + 1)]
    return dict(env=out, choices=choices, separates=best['separates'])


def eqsubst(pc):
    """substitution solving the equalities of the path"""
    m = {}
    for c in pc:
        if c is True or c is False or c[0] != '==':
            continue
        t = tm.subst(c[1], m) if m else c[1]
        if t.op == 'v':
            m = {k: tm.subst(v, {t.a: tm.ZERO}) for k, v in m.items()}
            m[t.a] = tm.ZERO
        elif t.op == '+':
            for u, k in t.a:
                if u.op == 'v' and u.a != 'pi':
                    rest = tm.scale(tm.sub(t, tm.scale(u, k)), Fr(-1) / k)
                    if u.a not in tm.fvars(rest) and (tm.VARS[u.a]['data'] or not rest.dat) and not (tm.VARS[u.a]['pos'] and not tm.is_pos(rest)):
                        m = {q: tm.subst(v, {u.a: rest}) for q, v in m.items()}
                        m[u.a] = rest
                        break
            else:
                # two positive products that are equal: solve for one of their variables
                prods = [(u, k) for u, k in t.a] + ([(tm.ONE, t.b)] if t.b else [])
                if len(prods) == 2 and prods[0][1] * prods[1][1] < 0 and all(tm.is_pos(u) for u, _ in prods):
                    (u, k), (w, l) = prods
                    fs = list(u.a) if u.op == '*' else [(u, 1)]
                    for v, e in fs:
                        if v.op != 'v' or v.a == 'pi' or v.a in tm.fvars(w) or not tm.VARS[v.a]['pos']:
                            continue
                        others = tm.mul(*[tm.powr(x, y) for x, y in fs if x is not v])
                        if v.a in tm.fvars(others) or (not tm.VARS[v.a]['data'] and (others.dat or w.dat)):
                            continue
                        rest = tm.powr(tm.div(tm.scale(w, -l / Fr(k)), others), 1 / Fr(e))
                        m = {q: tm.subst(z, {v.a: rest}) for q, z in m.items()}
                        m[v.a] = rest
                        break
    return m


def setcond(t, c, val):
    """t with every occurrence of the atom c (and what it implies) replaced"""
    neg_ = sym.cnot(c)
    memo = {}

    def cm(x):
        if x is True or x is False:
            return x
        if x[0] == 'and':
            return sym.cand(*[cm(y) for y in x[1]])
        if x[0] == 'or':
            return sym.cor(*[cm(y) for y in x[1]])
        if x == c:
            return val
        if x == neg_:
            return not val
        # t<0 / t<=0 / t==0 relations on the same term
        if c[0] == '<' and val and x[1] is c[1]:
            return x[0] in ('<=', '!=')
        if c[0] == '<' and val and x[1] is tm.neg(c[1]):
            return x[0] == '!='
        if c[0] == '<=' and not val and x[1] is tm.neg(c[1]):
            return x[0] in ('<', '<=', '!=')
        return sym._normc(x[0], go(x[1]))

    def go(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op in 'cv':
            r = u
        elif u.op == '+':
            r = tm.add(tm.const(u.b), *[tm.scale(go(v), k) for v, k in u.a])
        elif u.op == '*':
            r = tm.mul(*[tm.powr(go(v), k) for v, k in u.a])
        elif u.op == 'f':
            r = tm.fn(u.a, *[go(v) for v in u.b])
        else:
            q = cm(u.a)
            r = go(u.b[0]) if q is True else go(u.b[1]) if q is False else tm.ite(q, go(u.b[0]), go(u.b[1]))
        memo[u.id] = r
        return r
    return go(t)


def desum(a, b):
    """if a-b is linear in sums over data, the pointwise difference (sufficient for equality)"""
    d = tm.sub(a, b)
    ps, c = tm._addparts(d)
    body = [tm.div(tm.const(c), tm.NVAR)] if c else []
    for u, k in ps:
        if u.op == 'f' and u.a == 'sum':
            body.append(tm.scale(u.b[0], k))
        elif u.op == '*':
            ss = [v for v, x in u.a if v.op == 'f' and v.a == 'sum' and x == 1]
            if len(ss) == 1:
                rest = tm.mul(*[tm.powr(v, x) for v, x in u.a if v is not ss[0]])
                if any(w.op == 'f' and w.a == 'sum' for w in tm.subterms(rest).values()):
                    return None
                body.append(tm.scale(tm.mul(rest, ss[0].b[0]), k))
            elif not ss and tm.NVAR in [v for v, x in u.a]:
                body.append(tm.scale(tm.div(u, tm.NVAR), k))
            else:
                return None
        else:
            return None
    return tm.add(*body) if body else tm.ZERO


def ite_atoms(t):
    r = []
    seen = {}
    for u in tm.subterms(t).values():
        if u.op == 'ite':
            for a in sym.catoms(u.a):
                if a not in r:
                    r.append(a)
    return r


def absatoms(t):
    r = []
    for u in tm.subterms(t).values():
        if u.op == 'f' and u.a in ('abs', 'sign'):
            c = ('<', u.b[0])
            if c not in r:
                r.append(c)
    return r


def setsign(t, x, positive):
    """replace |x| and sign(x)"""
    def f(u):
        return u
    memo = {}

    def go(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op in 'cv':
            r = u
        elif u.op == '+':
            r = tm.add(tm.const(u.b), *[tm.scale(go(v), k) for v, k in u.a])
        elif u.op == '*':
            r = tm.mul(*[tm.powr(go(v), k) for v, k in u.a])
        elif u.op == 'f':
            if u.a in ('abs', 'sign') and u.b[0] is x:
                y = go(x)
                r = (y if positive else tm.neg(y)) if u.a == 'abs' else tm.const(1 if positive else -1)
            else:
                r = tm.fn(u.a, *[go(v) for v in u.b])
        else:
            q = sym.cmap(u.a, go)
            r = go(u.b[0]) if q is True else go(u.b[1]) if q is False else tm.ite(q, go(u.b[0]), go(u.b[1]))
        memo[u.id] = r
        return r
    return go(t)


def prove_eq(a, b, pc, nodeq=None, depth=0, budget=None):
    """(status, backend, candidate)"""
    if a is b:
        return 'proved', 'structure', None
    if budget is None:
        budget = [600]
    m = eqsubst(pc) if depth == 0 else {}
    if m:
        try:
            a, b = tm.subst(a, m), tm.subst(b, m)
        except (ZeroDivisionError, tm.DomainError):
            return 'skipped', 'branch boundary (undefined)', None
        if a is b:
            return 'proved', 'structure', None
    key = (a.id, b.id)
    k = _eqcache.get(key)
    if k:
        return 'proved', k, None
    if tm.sub(a, b) is tm.ZERO:
        return 'proved', 'normal form', None
    at = ite_atoms(a)
    for c in ite_atoms(b):
        if c not in at:
            at.append(c)
    if not at:
        if _fp(a, b):
            _eqcache[key] = 'identity'
            return 'proved', 'identity', None
        for c in absatoms(a) + absatoms(b):
            x = c[1]
            budget[0] -= 1
            if budget[0] < 0:
                return 'unknown', 'budget', None
            if x.dat and _hassum(a, b):
                break
            for posi in (True, False):
                cc = ('<', tm.neg(x)) if posi else ('<', x)
                cc = sym._normc(*cc)
                if cc is False or (cc is not True and sym.check_sat(list(pc) + [cc]) == 'unsat'):
                    continue
                st, by, cd = prove_eq(setsign(a, x, posi), setsign(b, x, posi), list(pc) + ([cc] if cc is not True else []), nodeq, depth + 1, budget)
                if st not in ('proved', 'skipped'):
                    return st, by, cd
            return 'proved', 'identity by cases', None
        # the identity fails for arbitrary values: the path condition may still imply equality
        if pc and not _hassum(a, b):
            c = sym._normc('!=', tm.sub(a, b))
            if c is False or sym.check_sat(list(pc) + [c], timeout=3000) == 'unsat':
                return 'proved', 'z3', None
        return 'refuted', 'identity', None
    if _hassum(a, b):
        body = desum(a, b)
        if body is None:
            # atoms inside sums that cannot be aligned: random truth values per data point
            if tm.equal_fp(a, b, rounds=24):
                return 'proved', 'identity (all truth assignments sampled)', None
            return 'unknown', 'sums with branches', None
        return prove_eq(body, tm.ZERO, pc, nodeq, depth + 1, budget)
    # choose an atom whose own term has no ite inside
    at.sort(key=lambda c: (len(ite_atoms(c[1])), c[1].id))
    c = at[0]
    for val in (True, False):
        budget[0] -= 1
        if budget[0] < 0:
            return 'unknown', 'budget', None
        cc = c if val else sym.cnot(c)
        if cc[0] == '==' and nodeq is not None and (nodeq in tm.fvars(cc[1]) or c[1].dat):
            continue                  # derivative on a boundary of measure zero
        if sym.check_sat(list(pc) + [cc]) == 'unsat':
            continue
        a2, b2 = setcond(a, c, val), setcond(b, c, val)
        pc2 = list(pc) + [cc]
        if cc[0] == '==':
            m = eqsubst([cc])
            if m:
                try:
                    a2, b2 = tm.subst(a2, m), tm.subst(b2, m)
                except (ZeroDivisionError, tm.DomainError):
                    continue
        st, by, cd = prove_eq(a2, b2, pc2, nodeq, depth + 1, budget)
        if st not in ('proved', 'skipped'):
            if cd is None:
                cd = find_cand(pc2, (a2, b2), None, 7, [])
            return st, by, cd
    return 'proved', 'identity by cases', None


def _hassum(a, b):
    return any(u.op == 'f' and u.a == 'sum' for t in (a, b) for u in tm.subterms(t).values())


def _fp(a, b):
    t0 = time.time()
    r = tm.equal_fp(a, b)
    sym.STATS['fp_calls'] += 1
    sym.STATS['fp_time'] += time.time() - t0
    return r


def prove_cond(c, pc, hints=()):
    if c is True:
        return 'proved', 'structure'
    if c is False:
        return ('proved', 'infeasible path') if sym.check_sat(pc, timeout=10000) == 'unsat' else ('refuted', 'constant')
    if c[0] == '==':
        st, by, cd = prove_eq(c[1], tm.ZERO, pc)
        return st, by
    if c[0] == 'and':
        for x in c[1]:
            st, by = prove_cond(x, pc, hints)
            if st != 'proved':
                return st, by
        return 'proved', by
    n = sym.cnot(c)
    hs = [cond(h) for h in hints]
    r = sym.check_sat(list(pc) + [n], timeout=20000)
    if r == 'unsat':
        return 'proved', 'z3'
    if hs:
        for h in hs:
            st, by = prove_cond(h, pc)
            if st != 'proved':
                return st, by + ' (hint)'
        r = sym.check_sat(list(pc) + hs + [n], timeout=20000)
        if r == 'unsat':
            return 'proved', 'z3'
    return ('refuted' if r == 'sat' else 'unknown'), 'z3'


# ---------------------------------------------------------------- running one scenario
FUNCS = set()


def fnenter(name):
    FUNCS.add(name)


def run_symbolic(sc, seed):
    """list of Ob, number of paths, reached"""
    obs = []
    FUNCS.clear()
    t0 = time.time()
    npaths, reached = 0, 0
    ctxs = []

    def go():
        ctx = SymCtx(sc, obs, seed)
        ctxs.append(ctx)
        sc(ctx)
        return True
    try:
        for e, r, ex in sym.explore(go, maxpaths=sc.maxpaths):
            npaths += 1
            if isinstance(ex, PathEnd):
                continue
            if isinstance(ex, Unsupported):
                obs.append(Ob('translation', 'unsupported', 'engine', 0, '%s\n%s' % (ex, _tb(ex)), find_cand(e.pc, None, None, seed, e.choices())))
                continue
            if ex is not None:
                # a feasible path on which the code raises
                if isinstance(ex, (NameError, AttributeError, TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, ArithmeticError, RuntimeError, AssertionError, StopIteration, np.linalg.LinAlgError, UserWarning, Exception)):
                    if sym.check_sat(e.pc, timeout=3000) == 'unsat':
                        continue
                    obs.append(Ob('no exception', 'refuted', 'path', 0, '%s: %s\n%s' % (type(ex).__name__, ex, _tb(ex)), find_cand(e.pc, None, None, seed, e.choices())))
                continue
            reached += 1
            if time.time() - t0 > sc.timeout:
                raise Unsupported('time limit of the scenario')
    except Unsupported as ex:
        obs.append(Ob('translation', 'unsupported', 'engine', 0, '%s\n%s' % (ex, _tb(ex))))
    except RecursionError as ex:
        obs.append(Ob('translation', 'unsupported', 'engine', 0, 'recursion limit'))
    return obs, npaths, reached, sorted(FUNCS), time.time() - t0


def _tb(ex):
    l = traceback.extract_tb(ex.__traceback__)
    return '\n'.join('  %s:%d %s' % (os.path.basename(f.filename), f.lineno, f.line) for f in l[-6:])


def run_real(sc, seed, env=None, trace=None):
    """one concrete evaluation; returns ctx or None when the precondition is not met"""
    import warnings
    ctx = RealCtx(seed, env, trace, sc.n)
    np.random.seed(seed % (2 ** 31))
    random.seed(seed)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            sc(ctx)
    except PathEnd:
        if not ctx.fails:
            return None
    except Exception as ex:
        ctx.fails.append(('no exception', '%s: %s\n%s' % (type(ex).__name__, ex, _tb(ex))))
    return ctx
