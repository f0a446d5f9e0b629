"""F03: iterative fitters.  The model is abstract (any values, M01 as its contract); the linear solver of Levenberg-Marquardt and
the minimisers of scipy are replaced by an arbitrary answer, so that what is proved does not depend on the step they choose.
The simplex minimiser gets an uninterpreted function; one pass of it is taken from an arbitrary state."""
import math
from vc.prove import add
from vc.sym import PathEnd
from contracts.compound import abstract
from contracts.fitters import attempt, kept


class Proxy(object):
    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._b = base

    def __getattr__(self, k):
        return getattr(self._b, k)


class Swap(object):
    """names of a module replaced during a scenario (symbolic runs only)"""
    def __init__(self, ctx, mod, **kw):
        self.m = ctx.mod(mod)
        self.kw = kw if ctx.sym else {}

    def __enter__(self):
        self.old = {k: self.m.__dict__.get(k, self) for k in self.kw}
        self.m.__dict__.update(self.kw)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is self:
                del self.m.__dict__[k]
            else:
                self.m.__dict__[k] = v


class Job(object):
    def __init__(self, ctx, p, wgt, acc, norm=0, compound=False):
        A = abstract(ctx)
        self.ctx, self.p = ctx, p
        self.m = A('f', 1) + A('g', p - 1) if compound else A('f', p)
        self.x, self.y = ctx.data('x'), ctx.data('y')
        self.w = ctx.data('w', pos=True) if wgt else None
        self.a = None if not acc else ctx.data('a', pos=True) if acc == 'a' else ctx.real('acc', pos=True)
        if acc == 's' and not ctx.sym:
            self.a = float(self.a)
        self.m.parameters = ctx.array([ctx.real('start%d' % k) for k in range(p)])
        self.norm = []
        for r in range(norm):
            self.norm.append((ctx.array([ctx.real('N%d%d' % (r, k)) for k in range(p)]), ctx.real('nd%d' % r), ctx.real('nw%d' % r, pos=True)))

    def constrain(self, f):
        for row, d, w in self.norm:
            f.normalize(row, d, weight=w)

    def wts(self):
        v = self.y * 0 + 1
        if self.w is not None:
            v = v * self.w
        if self.a is not None:
            v = v / (self.a * self.a)
        return v

    def misfit(self, p, norm=False):
        r = self.y - self.m.result(self.x, p)
        s = self.ctx.total(self.wts() * r * r)
        if norm:
            for row, d, w in self.norm:
                e = d
                for k in range(self.p):
                    e = e - row[k] * p[k]
                s = s + w * e * e
        return s

    def gradient(self, p):
        r = self.m.result(self.x, p) - self.y
        d = self.m.partial(self.x, p)
        return [2 * self.ctx.total(self.wts() * r * d[:, k]) for k in range(self.p)]

    def arrays(self):
        return [v for v in (self.x, self.y, self.w) if v is not None] + ([self.a] if hasattr(self.a, 'shape') else [])

    def point(self, tag):
        return self.ctx.array([self.ctx.real('%s%d' % (tag, k)) for k in range(self.p)])


def short(ctx, v):
    """parameters with kept ones removed"""
    return v


def quiet(f, *a, **kw):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


# ------------------------------------------------------------------------------------------------ Levenberg-Marquardt
def lmfit(ctx, p, wgt, acc, kc=(), kf=None, par0=False, norm=0, passes=3, compound=False, lim=None):
    np = ctx.np
    J = Job(ctx, p, wgt, acc, norm, compound)
    m = J.m
    if lim:
        for k, (lo, hi) in enumerate(lim):
            m.setPrior(k, ctx.cls('UniformPrior')(limits=[lo, hi]))
    kcd = kept(ctx, kc) if kc else None
    kfd = None if kf is None else kept(ctx, kf, 'f')
    use = kfd if kfd is not None else kcd or {}
    mod = ctx.mod('LevenbergMarquardtFitter')
    f = ctx.cls('LevenbergMarquardtFitter')(J.x, m, keep=kcd, verbose=0)
    J.constrain(f)
    p0 = J.point('par') if par0 else None
    start = (p0 if par0 else m.parameters).copy()
    for k, v in use.items():
        start[k] = v
    if lim:
        for k, (lo, hi) in enumerate(lim):
            if k not in use:
                start[k] = ctx.where(start[k] < lo, ctx.const(lo), ctx.where(start[k] > hi, ctx.const(hi), start[k]))
    chi0 = J.misfit(start, True)
    ctx.assume(chi0 > 0)
    ncall = [0]
    last = [None]

    def solve(h, v):
        ncall[0] += 1
        if ncall[0] > passes:
            raise PathEnd()
        return ctx.array([ctx.rng().randn() for _ in range(p - len(use))])
    arrs = J.arrays() + ([p0] if par0 else [])
    old = ctx.snap(*arrs)
    CE = ctx.cls('ConvergenceError')
    it = ctx.int(1, passes) if ctx.sym else ctx.choose([1, 2, 5, 50])
    kw = {} if p0 is None else dict(par0=p0)
    lin = Proxy(np.linalg, solve=solve)
    with Swap(ctx, 'LevenbergMarquardtFitter', numpy=Proxy(mod.numpy, linalg=lin)):
        try:
            par = attempt(ctx, lambda: f.fit(J.y, weights=J.w, accuracy=J.a, keep=kfd, maxiter=it, **kw))
        except (np.linalg.LinAlgError if not ctx.sym else ()) :
            ctx.assume(False)
        except CE:
            ctx.ok('stops only when out of iterations', f.iter >= it)
            ctx.le('misfit of the model not above the start', J.misfit(m.parameters, True), ctx.where(chi0 < J.misfit(m.parameters, True), J.misfit(m.parameters, True), chi0))
            ctx.unchanged('arrays', arrs, old)
            return
    ctx.same('number of parameters', len(par), p)
    ctx.eq('parameters of the model', m.parameters, par)
    ctx.eq('misfit', f.chisq, J.misfit(par))
    ctx.le('misfit not above that of the start', J.misfit(par, True), chi0, 1e-9)
    for k, v in use.items():
        ctx.eq('kept %d' % k, par[k], v)
    if lim:
        inlimits(ctx, 'result', [[l[0] for k, l in enumerate(lim) if k not in use], [l[1] for k, l in enumerate(lim) if k not in use]], [par[k] for k in range(p) if k not in use])
    ctx.unchanged('arrays', arrs, old)
    ctx.le('iterations', f.iter, it)


def lmtrial(ctx, p, fit, norm=0):
    """one pass of the acceptance loop from an arbitrary state: accepted only when not worse"""
    np = ctx.np
    J = Job(ctx, p, 'w', '', norm)
    mod = ctx.mod('LevenbergMarquardtFitter')
    f = ctx.cls('LevenbergMarquardtFitter')(J.x, J.m, verbose=0)
    if not hasattr(type(f), 'trialfit'):
        ctx.ok('no separate acceptance loop', True)
        return
    J.constrain(f)
    fi, y, w = f.fitprolog(J.y, weights=J.w)
    fi = np.array(fit, dtype=int)
    par = J.point('par')
    f.chi = J.misfit(par, True)
    ctx.assume(f.chi > 0)
    chi0 = f.chi
    f.lamda = ctx.real('lambda', pos=True)
    if not ctx.sym:
        f.lamda = float(f.lamda)
    n = [0]

    def solve(h, v):
        n[0] += 1
        if n[0] > 2:
            raise PathEnd()
        return ctx.array([ctx.rng().randn() for _ in fit])
    model0 = J.m.parameters.copy()
    old = ctx.snap(par)
    with Swap(ctx, 'LevenbergMarquardtFitter', numpy=Proxy(mod.numpy, linalg=Proxy(np.linalg, solve=solve))):
        try:
            tp, tc = attempt(ctx, lambda: f.trialfit(par, fi, y, w, 0, 2))
        except (np.linalg.LinAlgError if not ctx.sym else ()):
            ctx.assume(False)
        except ctx.cls('ConvergenceError'):
            ctx.ok('stops only when out of iterations', f.iter >= 2)
            return
    ctx.eq('misfit', tc, J.misfit(tp, True))
    ctx.le('not worse', tc, chi0)
    for k in range(p):
        if k not in fit:
            ctx.eq('not fitted %d' % k, tp[k], par[k])
    ctx.eq('accepted misfit so far', f.chi, chi0)
    ctx.unchanged('parameters', [par], old)
    ctx.eq('parameters of the model', J.m.parameters, model0)


for wgt in ('', 'w'):
    for acc in ('', 'a', 's'):
        nm = 'Levenberg-Marquardt%s%s' % (' weights' if wgt else '', dict(a=' accuracies', s=' one accuracy').get(acc, ''))
        add('F03', nm, lmfit, 2, wgt, acc, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
        add('F03', nm + ' kept by the fitter', lmfit, 3, wgt, acc, (1,), None, True, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
        add('F03', nm + ' kept in the fit', lmfit, 2, wgt, acc, (), (0,), True, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
add('F03', 'Levenberg-Marquardt initial parameters', lmfit, 2, 'w', '', (), None, True, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
add('F03', 'Levenberg-Marquardt constraint', lmfit, 2, 'w', '', (), None, True, 1, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
add('F03', 'Levenberg-Marquardt constraint, kept', lmfit, 2, '', '', (1,), None, False, 1, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
add('F03', 'Levenberg-Marquardt compound', lmfit, 3, 'w', '', (2,), (0,), False, 0, 3, True, mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=400)
add('F03', 'Levenberg-Marquardt limited', lmfit, 2, 'w', '', (), None, False, 0, 1, False, ((-1.0, 2.0), (0.5, 3.5)), mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=2000)
add('F03', 'Levenberg-Marquardt limited, kept', lmfit, 2, '', '', (), (0,), True, 0, 2, False, ((-1.0, 2.0), (0.5, 3.5)), mode='unrolled', note='bounded: at most three steps of Levenberg-Marquardt, each step arbitrary', maxpaths=2000)
add('F03', 'acceptance of a step', lmtrial, 2, (0, 1))
add('F03', 'acceptance of a step, one kept', lmtrial, 3, (0, 2))
add('F03', 'acceptance of a step, constraint', lmtrial, 2, (1,), 1)


# ------------------------------------------------------------------------------------------------ simplex
class Recorder(object):
    def __init__(self, ctx, n):
        self.ctx, self.pts, self.vals = ctx, [], []

    def value(self, p):
        if self.ctx.sym:
            return self.ctx.ufun('F')(*[p[k] for k in range(len(p))])
        return float(self.ctx.ufun('F')(*[float(v) for v in p]))

    def __call__(self, p):
        self.pts.append(p.copy())
        self.vals.append(self.value(p))
        return self.vals[-1]


def limits(ctx, kind, n, around=None):
    if not kind:
        return None
    if around is not None and kind == 'each':
        lo = [v - ctx.real('below%d' % k, pos=True) for k, v in enumerate(around)]
        return [lo, [v + ctx.real('above%d' % k, pos=True) for k, v in enumerate(around)]]
    if kind == 'scalar':
        lo = ctx.real('lo')
        return [lo, lo + ctx.real('range', pos=True)] if ctx.sym else [float(lo), float(lo + ctx.real('range', pos=True))]
    lo = [ctx.real('lo%d' % k) for k in range(n)]
    hi = [v + ctx.real('range%d' % k, pos=True) for k, v in enumerate(lo)]
    if kind == 'open':                      # some sides open
        lo[0] = -math.inf
        hi[n - 1] = math.inf
    return [lo, hi]


def side(lim, j, k):
    v = lim[j]
    return v[k] if isinstance(v, list) else v


def inlimits(ctx, tag, lim, p):
    if lim is None:
        return
    for k in range(len(p)):
        lo, hi = side(lim, 0, k), side(lim, 1, k)
        if not isinstance(lo, float) or lo > -math.inf:
            ctx.le('%s: above the low limit of %d' % (tag, k), lo, p[k], 1e-9)
        if not isinstance(hi, float) or hi < math.inf:
            ctx.le('%s: below the high limit of %d' % (tag, k), p[k], hi, 1e-9)


def state(ctx, tag, A, F, lim, n):
    """invariant of the simplex"""
    ctx.eq(tag + ': value of the best point', A.fopt, F.value(A.xopt))
    for i, v in enumerate(F.vals):
        ctx.le('%s: no better point was seen (%d)' % (tag, i), A.fopt, v, 1e-9)
    for i in range(n + 1):
        ctx.eq('%s: value of corner %d' % (tag, i), A.values[i], F.value(A.simplex[i]))
        ctx.le('%s: best not above corner %d' % (tag, i), A.fopt, A.values[i], 1e-9)
    for i, q in enumerate(F.pts):
        inlimits(ctx, '%s: evaluated %d' % (tag, i), lim, q)
    inlimits(ctx, tag + ': best', lim, A.xopt)


def build(ctx, n, kind, temp=0, **kw):
    F = Recorder(ctx, n)
    lim = limits(ctx, kind, n)
    ini = ctx.array([ctx.real('ini%d' % k) for k in range(n)])
    size = kw.pop('size', None)
    if size == 'list':
        kw['size'] = ctx.array([ctx.real('size%d' % k, pos=True) for k in range(n)])
    elif size == 'one':
        kw['size'] = ctx.real('size', pos=True) if ctx.sym else float(ctx.real('size', pos=True))
    keep = [ini] + ([kw['size']] if size == 'list' else [])
    if lim is not None:
        kw['limits'] = lim
    old = ctx.snap(*keep)
    try:
        A = quiet(ctx.cls('AnnealingAmoeba'), F, ini, temp=temp, **kw)
    except ValueError as e:
        if 'degenerate' in str(e):
            ctx.ok('refuses a degenerate simplex', lim is not None)
            ctx.assume(False)
        raise
    ctx.unchanged('initial parameters and sizes', keep, old)
    return A, F, lim


def simplex(ctx, n, kind, size=None):
    A, F, lim = build(ctx, n, kind, size=size)
    state(ctx, 'start', A, F, lim, n)
    ctx.same('evaluations', len(F.pts), n + 1)
    ctx.same('counted evaluations', A.ncalls, n + 1)


def inpoint(ctx, tag, lim, n):
    """an arbitrary point inside the limits"""
    q = []
    for k in range(n):
        lo, hi = (None, None) if lim is None else (side(lim, 0, k), side(lim, 1, k))
        if lim is None:
            q.append(ctx.real('%s%d' % (tag, k)))
        elif isinstance(lo, float) and lo == -math.inf:
            q.append(hi - ctx.real('%s%d' % (tag, k), lo=0))
        elif isinstance(hi, float) and hi == math.inf:
            q.append(lo + ctx.real('%s%d' % (tag, k), lo=0))
        else:
            q.append(lo + (hi - lo) * ctx.real('%s%d' % (tag, k), lo=0, hi=1))
    return ctx.array(q)


def arbitrary(ctx, n, kind, temp, maxiter=1, tag=''):
    """an arbitrary state that satisfies the invariant"""
    np = ctx.np
    F = Recorder(ctx, n)
    lim = limits(ctx, kind, n)
    ini = [0.0] * n
    A = quiet(ctx.cls('AnnealingAmoeba'), lambda p: 1.0, ini, temp=temp, maxiter=1)
    A.func = F
    A.maxiter = maxiter
    if lim is not None:
        A.lolimits, A.hilimits = [[side(lim, j, k) for k in range(n)] for j in (0, 1)]

    inside = lambda tag: inpoint(ctx, tag, lim, n)
    S = [inside('corner%d.' % i) for i in range(n + 1)]
    A.simplex = np.array(S)
    A.values = ctx.array([F.value(s) for s in S])
    A.sum = A.simplex[0] * 0
    for s in S:
        A.sum = A.sum + s
    A.xopt = inside('best')
    A.fopt = F.value(A.xopt)
    for i in range(n + 1):
        ctx.assume(A.fopt <= A.values[i])
    A.rng = ctx.rng()
    A.iter = 3
    return A, F, lim


def trial(ctx, n, kind, temp):
    A, F, lim = arbitrary(ctx, n, kind, temp)
    if not hasattr(type(A), 'trialStep'):
        ctx.ok('no separate step', True)
        return
    ihi = ctx.int(0, n)
    fac = ctx.choose([-1.0, 2.0, 0.5, None])
    fac = ctx.real('factor') if fac is None else fac
    y = A.trialStep(ihi, A.values[ihi], fac)
    state(ctx, 'after a trial step', A, F, lim, n)
    ctx.same('one evaluation', len(F.pts), 1)


def inflate(ctx, n, kind):
    A, F, lim = arbitrary(ctx, n, kind, 0)
    if not hasattr(type(A), 'inflateSimplex'):
        ctx.ok('no separate inflation', True)
        return
    ilo = ctx.choose([0, n])
    keep = A.simplex[ilo].copy()
    fac = ctx.real('factor')
    y = A.inflateSimplex(ilo, fac)
    state(ctx, 'after inflating', A, F, lim, n)
    ctx.eq('best corner stays', A.simplex[ilo], keep)
    for i in range(n + 1):
        ctx.le('lowest value (%d)' % i, y, A.values[i])


def onepass(ctx, n, kind, temp):
    """one iteration of the downhill simplex from an arbitrary state"""
    A, F, lim = arbitrary(ctx, n, kind, temp)
    if temp:
        A.steps = 1.0 / n
    state0 = A.fopt
    tr = A.temperatureStep()
    state(ctx, 'after a pass', A, F, lim, n)
    ctx.le('best value does not rise', A.fopt, state0)
    ctx.le('iterations', A.iter, 4)


def signals(ctx, n, temp):
    """minimize returns the best point when converged, else raises; the moves themselves are arbitrary here"""
    A, F, lim = arbitrary(ctx, n, None, temp, maxiter=3)
    A.iter = 0
    A.steps, A.cooling = 1, 0.5
    if not hasattr(type(A), 'temperatureStep'):
        ctx.ok('no separate pass', True)
        return
    k = [0]
    best = [(A.xopt.copy(), A.fopt)]

    def step():
        k[0] += 1
        if k[0] > 4:
            raise PathEnd()
        A.iter += 1
        if ctx.choose([0, 1]):
            A.xopt = ctx.array([ctx.real('move%d%d' % (k[0], i)) for i in range(n)])
            A.fopt = F.value(A.xopt)
            best[0] = (A.xopt.copy(), A.fopt)
        return ctx.choose([0, 2])
    A.temperatureStep = step
    CE = ctx.cls('ConvergenceError')
    try:
        q = A.minimize()
    except CE:
        ctx.ok('out of iterations', A.iter >= 3)
        return
    ctx.eq('returns the best point', q, best[0][0])
    ctx.eq('its value', A.fopt, best[0][1])


def whole(ctx, n, kind, temp):
    """bounded: a complete minimisation with few iterations"""
    kw = dict(maxiter=ctx.choose([1, 3, 40, 400]))
    if temp:
        kw.update(cooling=0.5, steps=3)
    A, F, lim = build(ctx, n, kind, temp, size='one', **kw)
    try:
        q = quiet(A.minimize)
    except ctx.cls('ConvergenceError'):
        state(ctx, 'not converged', A, F, lim, n)
        return
    state(ctx, 'end', A, F, lim, n)
    ctx.eq('returned point', q, A.xopt)
    ctx.eq('counted evaluations', float(A.ncalls >= n + 1), 1.0)


for kind in (None, 'scalar', 'each', 'open'):
    nm = {None: 'no limits', 'scalar': 'the same limits for all', 'each': 'limits for each', 'open': 'limits on some sides'}[kind]
    for n in (2,) if kind != 'scalar' else (2, 3):
        add('F03', 'simplex start %d %s' % (n, nm), simplex, n, kind, 'list', maxpaths=3000, timeout=200)
    add('F03', 'simplex start %s, one size' % nm, simplex, 2, kind, 'one', maxpaths=3000, timeout=200)
    for temp in (0, 3.0):
        t = ' annealing' if temp else ''
        add('F03', 'simplex step %s%s' % (nm, t), trial, 2, kind, temp, mode='bounded' if kind == 'scalar' else 'proof', maxpaths=3000)
        if kind in (None, 'each'):
            add('F03', 'simplex pass %s%s' % (nm, t), onepass, 2, kind, temp, mode='bounded' if kind or temp else 'proof', maxpaths=6000, timeout=250)
        add('F03', 'simplex minimisation %s%s' % (nm, t), whole, 2, kind, temp, mode='bounded')
    add('F03', 'simplex inflation %s' % nm, inflate, 2, kind, mode='bounded' if kind in ('scalar', 'each') else 'proof', maxpaths=3000)
for temp in (0, 3.0):
    add('F03', 'simplex convergence %s' % ('annealing' if temp else 'cold'), signals, 2, temp, maxpaths=3000)


# ------------------------------------------------------------------------------------------------ minimisers of others
class Amoeba(object):
    """contract of the simplex minimiser: fopt is the value of the point it returns"""
    def __init__(self, func, xini, **kw):
        self.func, self.xini, self.kw = func, xini, kw
        Amoeba.last = self

    def minimize(self):
        ctx = Amoeba.ctx
        self.iter, self.ncalls, self.simplex, self.values = 5, 12, None, None
        n = len(self.xini)
        J, use = Amoeba.job
        q = ctx.array([ctx.real('opt%d' % k) for k in range(n)])
        # it has looked at other points too
        self.func(ctx.array([ctx.real('other%d' % k) for k in range(n)]))
        self.fopt = self.func(q)
        self.func(ctx.array([ctx.real('after%d' % k) for k in range(n)]))
        Amoeba.q = q
        self.xopt = q
        return q


def insert(ctx, J, use, q):
    r, i = [], 0
    for k in range(J.p):
        if k in use:
            r.append(use[k])
        else:
            r.append(q[i])
            i += 1
    return ctx.array(r)


def reported(ctx, J, f, par, use, chisq=True):
    ctx.same('number of parameters', len(par), J.p)
    ctx.eq('parameters of the model', J.m.parameters, par)
    for k, v in use.items():
        ctx.eq('kept %d' % k, par[k], v)
    if chisq:
        ctx.eq('misfit', f.chisq, J.misfit(par))


def amoebafit(ctx, p, wgt, acc, kc=(), kf=None, par0=False, lim=None):
    np = ctx.np
    J = Job(ctx, p, wgt, acc)
    kcd = kept(ctx, kc) if kc else None
    kfd = None if kf is None else kept(ctx, kf, 'f')
    use = kfd if kfd is not None else kcd or {}
    p0 = J.point('par') if par0 else None
    L = limits(ctx, lim, p)
    f = ctx.cls('AmoebaFitter')(J.x, J.m, keep=kcd)
    begin = J.m.parameters.copy()
    arrs = J.arrays() + ([p0] if par0 else [])
    old = ctx.snap(*arrs)
    Amoeba.ctx, Amoeba.job, Amoeba.last = ctx, (J, use), None
    with Swap(ctx, 'AmoebaFitter', AnnealingAmoeba=Amoeba):
        try:
            kw = {} if ctx.sym else dict(maxiter=ctx.choose([20, 400]))
            par = attempt(ctx, lambda: quiet(f.fit, J.y, weights=J.w, accuracy=J.a, keep=kfd, par0=p0, limits=L, **kw))
        except ctx.cls('ConvergenceError'):
            ctx.unchanged('arrays', arrs, old)
            return
        except ValueError as e:
            if 'degenerate' in str(e):
                ctx.assume(False)
            raise
    reported(ctx, J, f, par, use)
    ctx.unchanged('arrays', arrs, old)
    idx = [k for k in range(p) if k not in use]
    if L is not None:
        inlimits(ctx, 'returned', None if ctx.sym else [[side(L, j, k) for k in idx] for j in (0, 1)], [par[k] for k in idx])
    A = Amoeba.last
    if A is not None and ctx.sym:
        s = p0 if par0 else begin
        ctx.eq('start of the simplex', A.xini, ctx.array([s[k] for k in idx]))
        ctx.eq('result', par, insert(ctx, J, use, Amoeba.q))
        t = ctx.array([ctx.real('any%d' % k) for k in range(len(idx))])
        ctx.eq('objective is the misfit', attempt(ctx, lambda: A.func(t)), J.misfit(insert(ctx, J, use, t)))
        if L is not None:
            g = A.kw['limits']
            for j in (0, 1):
                for i, k in enumerate(idx):
                    v = g[j]
                    v = v[i] if isinstance(v, list) or getattr(v, 'shape', ()) != () else v
                    ctx.eq('limit %d %d' % (j, k), v, side(L, j, k))


for wgt in ('', 'w'):
    for acc in ('', 'a', 's'):
        nm = 'AmoebaFitter%s%s' % (' weights' if wgt else '', dict(a=' accuracies', s=' one accuracy').get(acc, ''))
        add('F03', nm, amoebafit, 2, wgt, acc)
        add('F03', nm + ' kept by the fitter', amoebafit, 3, wgt, acc, (1,), None, True, 'each')
        add('F03', nm + ' kept in the fit', amoebafit, 3, wgt, acc, (2,), (0,), False, 'scalar')


METHODS = ('NELDER-MEAD', 'POWELL', 'CG', 'BFGS', 'NEWTON-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'DOGLEG', 'TRUST-NCG')


def scipyfit(ctx, method, p, wgt, acc, kc=(), kf=None, par0=False, lim=None):
    import warnings
    np = ctx.np
    J = Job(ctx, p, wgt, acc)
    kcd = kept(ctx, kc) if kc else None
    kfd = None if kf is None else kept(ctx, kf, 'f')
    use = kfd if kfd is not None else kcd or {}
    p0 = J.point('par') if par0 else None
    f = ctx.cls('ScipyFitter')(J.x, J.m, method=method, keep=kcd)
    begin = J.m.parameters.copy()
    L = limits(ctx, lim, p, p0 if par0 else begin)
    arrs = J.arrays() + ([p0] if par0 else [])
    old = ctx.snap(*arrs)
    idx = [k for k in range(p) if k not in use]
    n = len(idx)
    seen = {}
    succ = ctx.choose([True, False])

    class Result(dict):
        def __getattr__(self, k):
            return self[k]

    def minimize(fun, x0, args=(), **kw):
        q = ctx.array([ctx.real('opt%d' % k) for k in range(n)])
        t = ctx.array([ctx.real('any%d' % k) for k in range(n)])
        seen.update(kw)
        full = insert(ctx, J, use, t)
        ctx.eq('objective is the misfit', attempt(ctx, lambda: fun(t)), J.misfit(full))
        s = p0 if par0 else begin
        ctx.eq('start', x0, ctx.array([s[k] for k in idx]))
        g = J.gradient(full)
        if kw.get('jac') is not None:
            ctx.eq('gradient', kw['jac'](t), ctx.array([g[k] for k in idx]))
        if kw.get('hess') is not None:
            h = kw['hess'](t)
            d = J.m.partial(J.x, full)
            for i, a in enumerate(idx):
                for j, b in enumerate(idx):
                    ctx.eq('Hessian %d %d' % (i, j), h[i, j], 2 * ctx.total(J.wts() * d[:, a] * d[:, b]))
        if kw.get('bounds') is not None:
            for i, (lo, hi) in enumerate(kw['bounds']):
                ctx.eq('low bound %d' % i, lo, side(L, 0, idx[i]))
                ctx.eq('high bound %d' % i, hi, side(L, 1, idx[i]))
        elif L is not None and kw['method'].upper() in ('L-BFGS-B', 'TNC', 'SLSQP'):
            ctx.ok('limits are handed on', False)
        r = Result(x=q, fun=fun(q), nfev=7, nit=3, njev=2, success=succ, message='stub')
        fun(ctx.array([ctx.real('after%d' % k) for k in range(n)]))
        return r
    with warnings.catch_warnings(record=True) as ws, Swap(ctx, 'ScipyFitter', minimize=minimize):
        warnings.simplefilter('always')
        kw = {} if ctx.sym else dict(maxiter=30)
        try:
            par = attempt(ctx, lambda: quiet(f.fit, J.y, weights=J.w, accuracy=J.a, keep=kfd, par0=p0, limits=L))
        except ValueError as e:
            if not ctx.sym:                   # scipy refuses (initial value outside the bounds, Hessian not definite)
                ctx.assume(False)
            raise
        if not ctx.sym:
            succ = bool(f.fulloutput['success'])
    warned = any('converge' in str(w.message) for w in ws)
    ctx.same('warns when it did not converge', warned, not succ)
    if ctx.sym:
        reported(ctx, J, f, par, use)
        ctx.eq('result', par, insert(ctx, J, use, [ctx.real('opt%d' % k) for k in range(n)]))
    else:
        ctx.assume(np.isfinite(par).all())
        reported(ctx, J, f, par, use)
    ctx.unchanged('arrays', arrs, old)


for i, method in enumerate(METHODS):
    add('F03', 'scipy %s' % method, scipyfit, method, 2, 'w' if i % 2 else '', ('', 'a', 's')[i % 3])
    add('F03', 'scipy %s kept' % method, scipyfit, method, 3, '' if i % 2 else 'w', ('a', '', '')[i % 3], (1,), None, True)
    if method in ('L-BFGS-B', 'TNC', 'SLSQP'):
        add('F03', 'scipy %s limits' % method, scipyfit, method, 3, '', '', (), (0,), False, 'each')
        add('F03', 'scipy %s the same limits for all' % method, scipyfit, method, 2, '', '', (), None, False, 'scalar')
add('F03', 'scipy default method', scipyfit, None, 2, '', '')
add('F03', 'scipy default method limits', scipyfit, None, 3, '', '', (0,), None, False, 'each')


def curvefit(ctx, p, wgt, acc, kc=(), kf=None, par0=False, lim=None, fixed=False):
    np = ctx.np
    J = Job(ctx, p, wgt, acc)
    kcd = kept(ctx, kc) if kc else None
    kfd = None if kf is None else kept(ctx, kf, 'f')
    use = kfd if kfd is not None else kcd or {}
    p0 = J.point('par') if par0 else None
    fs = 1.0 if fixed else None
    f = ctx.cls('CurveFitter')(J.x, J.m, keep=kcd, fixedScale=fs)
    begin = J.m.parameters.copy()
    L = limits(ctx, lim, p, p0 if par0 else begin)
    arrs = J.arrays() + ([p0] if par0 else [])
    old = ctx.snap(*arrs)
    idx = [k for k in range(p) if k not in use]
    n = len(idx)

    def curve_fit(fun, xdata, ydata, p0=None, sigma=None, absolute_sigma=False, bounds=None, jac=None, method=None, **kw):
        t = [ctx.real('any%d' % k) for k in range(n)]
        full = insert(ctx, J, use, t)
        r = J.m.result(J.x, full)
        ctx.eq('abscissa', xdata, J.x)
        ctx.eq('data', ydata, J.y)
        ctx.eq('function', fun(xdata, *t), r)
        d = J.m.partial(J.x, full)
        if jac is not None:
            g = jac(xdata, *t)
            for i, k in enumerate(idx):
                ctx.eq('Jacobian %d' % k, g[:, i], d[:, k])
        W = J.y * 0 + 1 if sigma is None else 1 / (sigma * sigma)
        ctx.eq('weights', W, J.wts())
        s = J_p0 if par0 else begin
        ctx.eq('start', p0, ctx.array([s[k] for k in idx]))
        if L is not None:
            for j in (0, 1):
                for i, k in enumerate(idx):
                    v = bounds[j]
                    v = v[i] if isinstance(v, list) or getattr(v, 'shape', ()) != () else v
                    ctx.eq('bound %d %d' % (j, k), v, side(L, j, k))
        q = ctx.array([ctx.real('opt%d' % k) for k in range(n)])
        fun(xdata, *[ctx.real('after%d' % k) for k in range(n)])
        return q, np.array([[1.0]])
    J_p0 = p0
    with Swap(ctx, 'CurveFitter', curve_fit=curve_fit):
        try:
            par = attempt(ctx, lambda: quiet(f.fit, J.y, weights=J.w, accuracy=J.a, keep=kfd, inipar=p0, limits=L))
        except (ValueError, RuntimeError, TypeError):
            if ctx.sym:
                raise
            ctx.assume(False)                 # scipy refuses
    reported(ctx, J, f, par, use)
    if ctx.sym:
        ctx.eq('result', par, insert(ctx, J, use, [ctx.real('opt%d' % k) for k in range(n)]))
    ctx.unchanged('arrays', arrs, old)
    ctx.same('kept in this fit only', f.keep is kcd, True)


for wgt in ('', 'w'):
    for acc in ('', 'a', 's'):
        nm = 'CurveFitter%s%s' % (' weights' if wgt else '', dict(a=' accuracies', s=' one accuracy').get(acc, ''))
        add('F03', nm, curvefit, 2, wgt, acc)
        add('F03', nm + ' kept by the fitter', curvefit, 3, wgt, acc, (1,), None, True, 'each')
        add('F03', nm + ' kept in the fit', curvefit, 3, wgt, acc, (2,), (0,), False, 'scalar', True)


# ------------------------------------------------------------------------------------------------ likelihood fits
ERR = {'gauss': 'GaussErrorDistribution', 'laplace': 'LaplaceErrorDistribution', 'cauchy': 'CauchyErrorDistribution',
       'poisson': 'PoissonErrorDistribution', 'exponential': 'ExponentialErrorDistribution'}


def maxlik(ctx, err, wgt, kc=()):
    """objective and gradient are minus the log-likelihood of L01 and its gradient"""
    np = ctx.np
    J = Job(ctx, 3, wgt, '')
    kcd = kept(ctx, kc) if kc else None
    use = kcd or {}
    sc = ctx.real('scale', pos=True)
    sc = sc if ctx.sym else float(sc)
    kw = {} if err == 'poisson' else dict(scale=sc)
    f = ctx.cls('MaxLikelihoodFitter')(J.x, J.m, errdis=err, keep=kcd, **kw)
    f.userGradient = True
    idx, y, w = f.fitprolog(J.y, weights=J.w)
    fun, grad, hess = f.makeFuncs(y, weights=w, index=idx)
    n = 3 - len(use)
    t = ctx.array([ctx.real('any%d' % k) for k in range(n)])
    full = insert(ctx, J, use, t)
    prob = ctx.cls('ClassicProblem')(model=J.m, xdata=J.x, ydata=J.y, weights=J.w)
    if err == 'poisson':
        if ctx.sym:
            g = ctx.ufun('logFactorial')
            ctx.mod('PoissonErrorDistribution').logFactorial = lambda k: g(k)
        E = ctx.cls(ERR[err])()
        hy = []
        ctx.assume(J.m.result(J.x, full) > 0)
        J.y = np.abs(np.round(J.y))  if not ctx.sym else J.y
    else:
        E = ctx.cls(ERR[err])(scale=sc)
        hy = [sc, 2.0] if err == 'exponential' else [sc]
    allp = np.append(full, hy)
    if err in ('laplace', 'exponential'):
        ctx.assume(J.m.result(J.x, full) != J.y)
    keep = ctx.snap(t)
    ctx.eq('objective', fun(t), -E.logLikelihood(prob, allp))
    g = E.partialLogL(prob, allp, [k for k in range(3) if k not in use])
    d = grad(t)
    for i in range(n):
        ctx.eq('gradient %d' % i, d[i], -g[i])
    ctx.unchanged('parameters', [t], keep)


for err in ERR:
    for wgt in ('', 'w'):
        add('F03', 'likelihood %s%s' % (err, ' weights' if wgt else ''), maxlik, err, wgt)
        add('F03', 'likelihood %s%s kept' % (err, ' weights' if wgt else ''), maxlik, err, wgt, (1,))


def likfit(ctx, err, kc=()):
    np = ctx.np
    J = Job(ctx, 3, 'w', '')
    kcd = kept(ctx, kc) if kc else None
    use = kcd or {}
    sc = ctx.real('scale', pos=True)
    sc = sc if ctx.sym else float(sc)
    f = ctx.cls('AmoebaFitter')(J.x, J.m, errdis=err, scale=sc, keep=kcd)
    Amoeba.ctx, Amoeba.job, Amoeba.last = ctx, (J, use), None
    with Swap(ctx, 'AmoebaFitter', AnnealingAmoeba=Amoeba):
        try:
            par = attempt(ctx, lambda: quiet(f.fit, J.y, weights=J.w))
        except ctx.cls('ConvergenceError'):
            ctx.assume(False)
    reported(ctx, J, f, par, use)
    E = ctx.cls(ERR[err])(scale=sc)
    prob = ctx.cls('ClassicProblem')(model=J.m, xdata=J.x, ydata=J.y, weights=J.w)
    ctx.eq('log likelihood', f.logLikelihood, E.logLikelihood(prob, np.append(par, [sc])))


for err in ('gauss', 'laplace', 'cauchy'):
    add('F03', 'likelihood fit %s' % err, likfit, err)
    add('F03', 'likelihood fit %s kept' % err, likfit, err, (2,))


# ------------------------------------------------------------------------------------------------ robust
class Inner(object):
    """contract of a fitter: arbitrary parameters for every set of weights; records the weights"""
    def __init__(self, ctx, J, passes):
        self.ctx, self.J, self.seen, self.passes = ctx, J, [], passes
        self.model, self.xdata, self.npfit = J.m, J.x, J.p
        self.accuracy = None
        self.keep = None

    def fit(self, data, weights=None, **kw):
        ctx = self.ctx
        k = len(self.seen)
        if k > self.passes:
            raise PathEnd()
        self.seen.append(None if weights is None else weights.copy())
        self.par = ctx.array([ctx.real('opt%d%d' % (k, i)) for i in range(self.J.p)])
        self.model.parameters = self.par
        self.chisq = ctx.real('chi%d' % k, pos=True)
        self.scale = ctx.real('scale%d' % k, pos=True)
        self.fitWgts, self.sumwgt, self.lastIndex = weights, ctx.real('sum%d' % k, pos=True), None
        return self.par

    def getHessian(self, **kw):
        return None


KERNELS = ('Biweight', 'Huber', 'Tophat', 'Cosine', 'CosSquare', 'Gauss', 'Lorentz', 'Parabola', 'Triangle', 'Tricube', 'Triweight', 'Uniform')


def robust(ctx, kernel, wgt, onesided, domain, later):
    np = ctx.np
    J = Job(ctx, 2, wgt, '')
    I = Inner(ctx, J, 3)
    kcls = lambda k: getattr(ctx.mod('kernels.' + k), k)
    K = kcls(kernel)
    it = ctx.int(1, 2)
    dom = None if not domain else ctx.real('domain', pos=True)
    if dom is not None and not ctx.sym:
        dom = float(dom)
    kw = dict(kernel=K, domain=dom, onesided=onesided)
    Shell = ctx.cls('RobustShell')
    if later:
        f = Shell(I, verbose=0)
        fkw = kw
    else:
        f = Shell(I, verbose=0, **kw)
        fkw = {}
    f.maxIter = it
    arrs = J.arrays()
    old = ctx.snap(*arrs)
    CE = ctx.cls('ConvergenceError')
    try:
        par = f.fit(J.y, weights=J.w, **fkw)
        done = True
    except CE:
        done = False
    n = len(I.seen)
    ctx.unchanged('arrays', arrs, old)
    if wgt:
        ctx.eq('first fit with the given weights', I.seen[0], J.w)
    else:
        ctx.same('first fit without weights', I.seen[0], None)
    k = K()
    d = dom if dom is not None else 6.0 / (k if not later else kcls('Biweight')()).fwhm
    for i in range(1, n):
        p = ctx.array([ctx.real('opt%d%d' % (i - 1, j)) for j in range(2)])
        r = (J.y - J.m.result(J.x, p)) / (ctx.real('scale%d' % (i - 1), pos=True) * d)
        v = k.result(r.copy())
        if onesided is not None:
            v = np.where(r < 0, 1.0, v) if onesided[0] == 'p' else np.where(r > 0, 1.0, v)
        base = v
        if wgt:
            v = v * J.w
        ctx.eq('weights of fit %d' % i, I.seen[i], v)
        ctx.le('robust weights of fit %d not above one' % i, I.seen[i], J.w if wgt else J.y * 0 + 1)
        if kernel != 'Cosine':                # its sign is settled in M06
            ctx.le('robust weights of fit %d not negative' % i, J.y * 0, I.seen[i])
    if done:
        chi = [ctx.real('chi%d' % i, pos=True) for i in range(n)]
        ctx.eq('returned parameters', par, I.par)
        ctx.eq('parameters of the model', J.m.parameters, I.par)
        ctx.eq('misfit', f.chisq, chi[-1])
        tol = np.where(chi[-1] < 1, f.tolerance, f.tolerance * chi[-1])
        ctx.ok('only when converged', abs(chi[-1] - chi[-2]) < tol)
        ctx.eq('weights of the fit', f.weights, I.seen[-1])
        ctx.eq('sum of the weights', f.sumwgt, I.sumwgt)
    else:
        ctx.same('gives up after all iterations', n, it + 1)


for k in KERNELS:
    add('F03', 'robust %s' % k, robust, k, 'w', None, False, False)
    add('F03', 'robust %s later' % k, robust, k, '', None, True, True)
for s in ('p', 'positive', 'n'):
    add('F03', 'robust one sided ' + s, robust, 'Biweight', 'w', s, True, False)
    add('F03', 'robust one sided later ' + s, robust, 'Huber', '', s, False, True)
