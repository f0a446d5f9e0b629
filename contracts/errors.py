"""L01, L02: error distributions.  The model is abstract (any model that keeps M01), so are data, weights, accuracies, parameters and
hyper parameters; the documented density is written out once more."""
import math
from vc.prove import add
from contracts.compound import abstract

INF = math.inf
KINDS = ['Gauss', 'Laplace', 'Cauchy', 'Exponential', 'Uniform', 'Poisson', 'Bernoulli']
NH = dict(Gauss=1, Laplace=1, Cauchy=1, Exponential=2, Uniform=1, Poisson=0, Bernoulli=0, Gauss2d=1)
ACCEPT = ('Gauss', 'Laplace', 'Exponential', 'Uniform', 'Gauss2d')


def lgam(ctx, z):
    if ctx.sym:
        return ctx.mod('ExponentialErrorDistribution').special.gammaln(z)
    from scipy import special
    return special.gammaln(z)


def factorials(ctx):
    """contract of logFactorial (decided in U02): the logarithm of gamma one higher"""
    if ctx.sym:
        ctx.mod('PoissonErrorDistribution').logFactorial = lambda k: lgam(ctx, k + 1)


def amodel(ctx, kind, nout=1, k=2):
    A = abstract(ctx)
    if kind != 'Bernoulli':
        return A('f', k, ndout=nout)
    q = ctx.const(0.25) if not ctx.sym else ctx.const(1) / 4

    class Small(A):                                # probabilities: in the concrete runs between 0 and 1
        def baseResult(self, x, p):
            return A.baseResult(self, x, p) * q

        def basePartial(self, x, p, parlist=None):
            r = A.basePartial(self, x, p, parlist)
            return [v * q for v in r] if isinstance(r, list) else r * q
    return Small('f', k, ndout=nout)


class Case(object):
    pass


def setup(ctx, kind, wgt='', acc='', nout=1, fixed=False):
    """problem, error distribution and parameters"""
    factorials(ctx)
    c = Case()
    c.kind = kind
    np = ctx.np
    c.model = amodel(ctx, kind, nout)
    x = ctx.data('x')
    if kind == 'Poisson':
        d = ctx.data('d', nonneg=True) if ctx.sym else np.floor(ctx.data('d', lo=0.0, hi=130.0))
    elif kind == 'Bernoulli':
        d = ctx.data('d', special=[0.0, 1.0, 2.0][:max(nout, 2)])
        if not ctx.sym:
            d = np.array([float(ctx.int(0, max(nout, 2) - 1)) for _ in range(len(x))])
        elif nout > 1 or ctx.sc.n is not None:     # categories
            d = ctx.array([ctx.const(ctx.int(0, max(nout, 2) - 1)) for _ in range(ctx.sc.n)])
    elif nout > 1:
        d = ctx.data('d', k=nout)
    else:
        d = ctx.data('d')
    c.w = None if not wgt else ctx.data('w', **({'pos': True} if ctx.sym and kind != 'Uniform' else {'nonneg': True})) if wgt == 'w' else ctx.data('w', k=nout, pos=True)
    c.a = None if not acc else ctx.real('acc', pos=True) if acc == 'scalar' else ctx.data('acc', pos=True) if acc == 'a' else ctx.data('acc', k=nout, pos=True)
    P = ctx.cls('ClassicProblem') if nout == 1 or kind == 'Bernoulli' else ctx.cls('MultipleOutputProblem')
    c.x, c.d = x, d
    c.problem = P(model=c.model, xdata=x, ydata=d, weights=c.w, accuracy=c.a)
    pm = [ctx.real('p0'), ctx.real('p1')]
    hy = []
    if NH[kind] >= 1:
        hy.append(ctx.real('scale', pos=True) if ctx.sym else ctx.real('scale', lo=4.5 if kind == 'Uniform' else 0.4, hi=9.0 if kind == 'Uniform' else 3.0))
    if NH[kind] == 2:
        hy.append(ctx.real('power', pos=True) if ctx.sym else ctx.real('power', lo=0.7, hi=3.0))
    c.hy = hy
    c.pars = ctx.array(pm + hy)
    lim = None if fixed or not hy else [0.01, 100.0] if NH[kind] == 1 else [[0.01, 0.1], [100.0, 10.0]]
    E = ctx.cls(kind + 'ErrorDistribution')
    c.err = E(limits=lim) if hy else E()
    if hy and not fixed:
        lims = [c.err.hyperpar[k].getLimits() for k in range(len(hy))]
        ctx.ok('limits of the scale', all(l is not None for l in lims))
    # flat views for the written out density: one entry per residual
    c.mock = c.model.result(x, c.pars[:2].copy())
    if nout > 1 and kind != 'Bernoulli':
        c.res = np.ravel(d - c.mock)
        flat = lambda v: None if v is None else v if acc == 'scalar' and v is c.a else np.ravel(v) if len(v.shape) == 2 else np.ravel(np.array([v] * nout).T)
        c.fw, c.fa = flat(c.w), flat(c.a)
    else:
        c.res = d - c.mock if kind != 'Bernoulli' else None
        c.fw, c.fa = c.w, c.a
    if kind == 'Poisson':
        ctx.assume(c.mock > 0)
    if kind == 'Bernoulli':
        ctx.assume(c.mock > 0)
        ctx.assume(c.mock < 1)
    return c


def density(ctx, kind, res, hy, acc, d=None, mock=None, nout=1):
    """logarithm of the documented density of one residual"""
    np = ctx.np
    if kind == 'Gauss':
        s2 = hy[0] * hy[0] + (0 if acc is None else acc * acc)
        return -0.5 * np.log(2 * np.pi) - np.log(s2) / 2 - res * res / s2 / 2
    if kind == 'Poisson':
        return d * np.log(mock) - mock - lgam(ctx, d + 1)
    if kind == 'Bernoulli':
        if nout == 1:
            return np.log(np.where(d == 0, mock, 1 - mock))
        p = 0.0
        for k in range(nout):
            p = np.where(d == k, mock[:, k], p)
        return np.log(p)
    s = hy[0] if acc is None else acc
    if kind == 'Laplace':
        return -np.log(2 * s) - np.abs(res) / s
    if kind == 'Cauchy':
        return np.log(s / (np.pi * (s * s + res * res)))
    if kind == 'Exponential':
        return np.log(hy[1] / (2 * s)) - lgam(ctx, 1 / hy[1]) - np.power(np.abs(res) / s, hy[1])
    if kind == 'Uniform':
        return np.where(np.abs(res) < s, -np.log(2 * s), -INF)


def spec(ctx, c, nout=1):
    r = density(ctx, c.kind, c.res, c.hy, c.fa, c.d, c.mock, nout)
    if c.fw is not None and c.kind in ACCEPT:
        if c.kind == 'Uniform':                    # a point of weight zero is not there
            return ctx.np.where(c.fw == 0, 0.0, c.fw * r)
        return c.fw * r
    return r


def l01(ctx, kind, wgt, acc, nout=1, fixed=False):
    c = setup(ctx, kind, wgt, acc, nout, fixed)
    np = ctx.np
    E, P = c.err, c.problem
    if kind == 'Uniform' and ctx.sym:
        inside = ctx.choose([True, False])
        s = c.hy[0] if c.fa is None else c.fa
        if inside:
            ctx.assume(np.abs(c.res) < s)
        else:
            ctx.assume(np.abs(c.res)[0] > (s if c.fa is None or acc == 'scalar' else s[0]))
            ll = E.logLikelihood(P, c.pars.copy())
            if c.fw is None:
                ctx.eq('impossible', ll, -INF)
                ctx.eq('impossible, in one go', E.logLikelihood_alt(P, c.pars.copy()), -INF)
            else:
                ctx.assume(c.fw[0] > 0)
                ctx.eq('impossible', ll, -INF)
            return
    keep = [v for v in (c.x, c.d, c.w, c.pars) if v is not None] + ([c.a] if acc and acc != 'scalar' else [])
    old = ctx.snap(*keep)
    want = spec(ctx, c, nout)
    ctx.eq('log density per point', E.logLdata(P, c.pars), want)
    mock = P.result(c.pars[:2])
    ctx.eq('log density per point of given mock data', E.logLdata(P, c.pars, mockdata=mock), want)
    tot = ctx.total(want)
    ctx.eq('log likelihood', E.logLikelihood(P, c.pars), tot)
    ctx.eq('log likelihood in one go', E.logLikelihood_alt(P, c.pars), tot)
    # other parameters in between
    q = c.pars.copy()
    q[0] = c.pars[0] + 1
    if kind not in ('Uniform', 'Poisson', 'Bernoulli'):
        lq = E.logLikelihood(P, q)
        ctx.eq('updated', E.updateLogL(P, q, parval={0: c.pars[0]}), lq)
    ctx.eq('log likelihood again', E.logLikelihood(P, c.pars), tot)
    ctx.unchanged('arrays', keep, old)
    ctx.same('takes weights', bool(E.acceptWeight()), kind in ACCEPT)


def constrained(ctx, kind):
    """a constraint gets the likelihood and decides"""
    c = setup(ctx, kind)
    f = ctx.ufun('constrain')
    low = ctx.real('low')
    c.err.lowLhood = low if ctx.sym else float(low)
    seen = []

    def cons(logL, problem, allpars, lowLhood):
        seen.append((logL, problem, allpars, lowLhood))
        return f(logL, allpars[0], lowLhood)
    c.err.constrain = cons
    L = c.err.logLikelihood(c.problem, c.pars)
    ctx.eq('constrained likelihood', L, f(ctx.total(spec(ctx, c)), c.pars[0], low))
    ctx.same('the problem is handed on', seen[0][1] is c.problem, True)
    c.err.constrain = None
    ctx.eq('unconstrained again', c.err.logLikelihood(c.problem, c.pars), ctx.total(spec(ctx, c)))
    ctx.raises('not callable', ValueError, lambda: setattr(c.err, 'constrain', 3.0))


def copies(ctx, kind):
    c = setup(ctx, kind)
    E, P = c.err, c.problem
    nh = NH[kind]
    v = [ctx.real('v%d' % k, pos=True) for k in range(nh)]
    for k in range(nh):
        E.hyperpar[k].hypar = v[k] if ctx.sym else float(v[k])
    L = E.logLikelihood(P, c.pars)
    C = E.copy()
    ctx.same('kind of copy', type(C) is type(E), True)
    ctx.same('hyper parameters', C.nphypar, nh)
    ctx.eq('likelihood of the copy', C.logLikelihood(P, c.pars), L)
    ctx.eq('residuals', E.getResiduals(P, c.pars), np_ravel(ctx, c))
    for k in range(nh):
        ctx.eq('value of the original %d' % k, E.hyperpar[k].hypar, v[k])
        ctx.eq('value of the copy %d' % k, C.hyperpar[k].hypar, v[k])
        ctx.same('fixed %d' % k, C.hyperpar[k].isFixed, False)
        lo, hi = E.hyperpar[k].getLimits()
        ctx.same('limits %d' % k, [float(q) for q in C.hyperpar[k].getLimits()], [float(lo), float(hi)])
        C.hyperpar[k].hypar = v[k] + 1 if ctx.sym else float(v[k] + 1)
        C.hyperpar[k].setLimits([0.5, 7.0])
        ctx.eq('value of the original, later %d' % k, E.hyperpar[k].hypar, v[k])
        ctx.same('limits of the original %d' % k, [float(q) for q in E.hyperpar[k].getLimits()], [float(lo), float(hi)])


def np_ravel(ctx, c):
    return c.d - c.mock


def gradient(ctx, E, P, pars, nh, pointwise=True, alt=True, skip=()):
    """skip: hyper parameters of which the derivative is not there"""
    npar = len(pars) - nh
    hy = [k for k in range(-nh, 0) if k not in skip]
    full = list(range(npar)) + hy
    at = [k if k >= 0 else npar + nh + k for k in full]
    g = E.partialLogL(P, pars, full)

    def some(v):
        q = pars.copy()
        for i, k in enumerate(at):
            q[k] = v[i]
        return q
    free = ctx.array([pars[k] for k in at])
    ctx.jac('gradient', lambda v: E.logLikelihood(P, some(v)), free, g)
    pick = [[0], [npar - 1], list(range(npar))[::-1], list(range(npar))]
    for k in hy:
        pick += [[k], [0, k], [npar - 1, k]]
    if hy:
        pick += [full[::-1]]
    if len(hy) > 1:
        pick += [hy, hy[::-1] + [0]]
    for fi in pick:
        want = [g[full.index(k)] for k in fi]
        ctx.eq('gradient to %s' % fi, E.partialLogL(P, pars, ctx_ints(ctx, fi)), ctx.array(want))
    if pointwise:
        it = E.nextPartialData(P, pars, full)
        pts = [next(it) for _ in full]
        L = E.logLdata(P, pars)
        pts = [p + L * 0 for p in pts]              # scalars stand for every point
        ctx.jac('gradient per point', lambda v: E.logLdata(P, some(v)), free, ctx.np.array(pts).T)
    if alt:
        ctx.eq('gradient in one go', E.partialLogL_alt(P, pars, full), g)


def ctx_ints(ctx, fi):
    import numpy
    return numpy.array(fi, dtype=int)


def l02(ctx, kind, wgt, acc, nout=1, fixed=False):
    c = setup(ctx, kind, wgt, acc, nout, fixed)
    if kind == 'Uniform':
        s = c.hy[0] if c.fa is None else c.fa
        ctx.assume(ctx.np.abs(c.res) < s)
    if kind in ('Laplace', 'Exponential'):
        ctx.assume(c.res != 0)
    keep = [v for v in (c.x, c.d, c.w, c.pars) if v is not None] + ([c.a] if acc and acc != 'scalar' else [])
    old = ctx.snap(*keep)
    gradient(ctx, c.err, c.problem, c.pars, NH[kind], pointwise=nout == 1 or kind != 'Bernoulli',
             skip=(-NH[kind],) if acc and kind != 'Gauss' else ())
    ctx.unchanged('arrays', keep, old)


# ------------------------------------------------------------------ mixtures
class NoTiny(object):
    """no underflow in exact arithmetic: a likelihood is never too small"""
    class float_info(object):
        min = -math.inf


def mixed(ctx, k1, k2, wgt, acc, grad):
    factorials(ctx)
    if ctx.sym:
        ctx.mod('MixedErrorDistribution').sys = NoTiny
    np = ctx.np
    m = amodel(ctx, 'Poisson' if 'Poisson' in (k1, k2) else 'Gauss')
    x = ctx.data('x')
    if 'Poisson' in (k1, k2):
        d = ctx.data('d', nonneg=True) if ctx.sym else np.floor(ctx.data('d', lo=0.0, hi=9.0))
    else:
        d = ctx.data('d')
    w = ctx.data('w', pos=True) if wgt else None
    a = ctx.data('acc', pos=True) if acc else None
    P = ctx.cls('ClassicProblem')(model=m, xdata=x, ydata=d, weights=w, accuracy=a)
    E1, E2 = ctx.cls(k1 + 'ErrorDistribution'), ctx.cls(k2 + 'ErrorDistribution')
    mk = lambda E, k: E(limits=[0.01, 100.0]) if NH[k] == 1 else E(limits=[[0.01, 0.1], [100.0, 10.0]]) if NH[k] else E()
    e1, e2 = mk(E1, k1), mk(E2, k2)
    E = ctx.cls('MixedErrorDistribution')(e1, e2, limits=[0.001, 0.999])
    pm = [ctx.real('p0'), ctx.real('p1')]
    h = []
    for i, k in ((1, k1), (2, k2)):
        hh = []
        if NH[k]:
            hh.append(ctx.real('scale%d' % i, pos=True) if ctx.sym else ctx.real('scale%d' % i, lo=4.5 if k == 'Uniform' else 0.4, hi=9.0 if k == 'Uniform' else 3.0))
        if NH[k] == 2:
            hh.append(ctx.real('power%d' % i, pos=True) if ctx.sym else ctx.real('power%d' % i, lo=0.7, hi=3.0))
        h.append(hh)
    f = ctx.real('f', lo=0.05, hi=0.95)
    if ctx.sym:
        ctx.assume(f > 0)
        ctx.assume(f < 1)
    pars = ctx.array(pm + h[0] + h[1] + [f])
    mock = m.result(x, pars[:2].copy())
    if 'Poisson' in (k1, k2):
        ctx.assume(mock > 0)
    res = d - mock
    ctx.assume(res != 0)
    L1 = density(ctx, k1, res, h[0], a, d, mock)
    L2 = density(ctx, k2, res, h[1], a, d, mock)
    nh = NH[k1] + NH[k2] + 1
    ctx.same('hyper parameters', E.nphypar, nh)
    if grad:
        if not ctx.sym:                            # where the likelihood underflows there is no derivative
            ctx.assume(np.logaddexp(L1, L2) > -200)
        skip = []                                  # with accuracies the scale of these is not implemented
        if acc and k1 != 'Gauss' and NH[k1]:
            skip.append(-nh)
        if acc and k2 != 'Gauss' and NH[k2]:
            skip.append(-NH[k2] - 1)
        gradient(ctx, E, P, pars, nh, alt=False, skip=skip)
        return
    want = np.log(f * np.exp(L1) + (1 - f) * np.exp(L2))
    if wgt:
        ctx.eq('log density per point, weighted', E.logLdata(P, pars), w * want if k1 in ACCEPT and k2 in ACCEPT else want)
        return
    ctx.eq('log density per point', E.logLdata(P, pars), want)
    ctx.eq('log likelihood', E.logLikelihood(P, pars), ctx.total(want))
    q = pars.copy()
    for v, L, nm in ((0.0, L2, 'second'), (1.0, L1, 'first')):
        q[-1] = v
        ctx.eq('only the %s' % nm, E.logLdata(P, q), L)


# ------------------------------------------------------------------ errors in both coordinates
def xandy(ctx, acc, wgt, grad):
    np = ctx.np
    n = ctx.N()
    A = abstract(ctx)
    m = A('f', 2)
    x, d = ctx.data('x'), ctx.data('d')
    w = ctx.data('w', pos=True) if wgt else None
    one = ctx.const(1)
    vyy, vxx, vxy = [[ctx.const(0.0)] * n for _ in range(3)]
    kw = {}
    pos = lambda nm: ctx.real(nm, pos=True)
    rho = lambda nm: ctx.real(nm, lo=-0.9, hi=0.9)
    if acc == 'scalar':
        s = pos('acc')
        kw = dict(accuracy=s)
        vyy = vxx = [s * s] * n
    elif acc in ('pair', 'triple'):
        s = [pos('accy'), pos('accx')] + ([rho('rho')] if acc == 'triple' else [])
        kw = dict(accuracy=ctx.array(s))
        vyy, vxx = [s[0] * s[0]] * n, [s[1] * s[1]] * n
        if acc == 'triple':
            vxy = [s[0] * s[1] * s[2]] * n
    elif acc in ('pairs', 'triples'):
        s = [[pos('accy%d' % i), pos('accx%d' % i)] + ([rho('rho%d' % i)] if acc == 'triples' else []) for i in range(n)]
        kw = dict(accuracy=np.array(s))
        vyy, vxx = [v[0] * v[0] for v in s], [v[1] * v[1] for v in s]
        if acc == 'triples':
            vxy = [v[0] * v[1] * v[2] for v in s]
    elif acc in ('covar', 'covars'):
        c = []
        for i in range(n if acc == 'covars' else 1):
            sy, sx, r = pos('sy%d' % i), pos('sx%d' % i), rho('r%d' % i)
            c.append([[sy * sy, sy * sx * r], [sy * sx * r, sx * sx]])
        kw = dict(covar=np.array(c if acc == 'covars' else c[0]))
        vyy, vxx, vxy = [[v[i][j] for v in c] * (1 if acc == 'covars' else n) for i, j in ((0, 0), (1, 1), (0, 1))]
    keep = list(kw.values()) if acc not in ('', 'scalar') else []
    old = ctx.snap(*keep)
    P = ctx.cls('ErrorsInXandYProblem')(model=m, xdata=x, ydata=d, weights=w, prior=ctx.cls('GaussPrior')(), **kw)
    E = ctx.cls('Gauss2dErrorDistribution')(limits=[0.01, 100.0])
    s = ctx.real('scale', pos=True) if ctx.sym else ctx.real('scale', lo=0.4, hi=2.0)
    xt = ctx.data('xt')
    p0, p1 = ctx.real('p0'), ctx.real('p1')
    pars = ctx.array([p0, p1] + [xt[i] for i in range(n)] + [s])
    if grad:
        gradient(ctx, E, P, pars, 1, pointwise=False)
        ctx.unchanged('accuracies', keep, old)
        return
    y = m.result(xt, ctx.array([p0, p1]))
    want = []
    for i in range(n):
        a, b, c = vyy[i] + s * s, vxx[i] + s * s, vxy[i]
        det = a * b - c * c
        if ctx.sym:
            ctx.assume(det > 0)                    # positive definite: |rho| < 1
        ry, rx = d[i] - y[i], x[i] - xt[i]
        q = (b * ry * ry - 2 * c * rx * ry + a * rx * rx) / det
        v = -np.log(2 * np.pi) - np.log(det) / 2 - q / 2
        want.append(v if w is None else w[i] * v)
    want = ctx.array(want)
    ctx.eq('log density per point', E.logLdata(P, pars), want)
    ctx.eq('log likelihood', E.logLikelihood(P, pars), ctx.total(want))
    ctx.eq('log likelihood in one go', E.logLikelihood_alt(P, pars), ctx.total(want))
    ctx.unchanged('accuracies', keep, old)


def note(kind):
    return 'two or three data points (enumerated): jumps between points, or per point parameters' if kind else ''


for kind in KINDS:
    for wgt in ('', 'w'):
        for acc in ('', 'a', 'scalar'):
            if kind in ('Poisson', 'Bernoulli') and acc:
                continue
            n = 2 if kind in ('Uniform', 'Bernoulli') else None
            nm = '%s%s%s' % (kind, ' weights' if wgt else '', dict(a=' accuracy', scalar=' one accuracy').get(acc, ''))
            add('L01', nm, l01, kind, wgt, acc, n=n)
            add('L02', nm, l02, kind, wgt, acc, n=n)
for kind in ('Gauss', 'Laplace', 'Cauchy', 'Exponential', 'Uniform'):
    for wgt, acc in (('', ''), ('w', ''), ('W', ''), ('', 'a'), ('W', 'A')):
        nm = '%s two outputs%s%s' % (kind, dict(w=' weights', W=' weights per output').get(wgt, ''), dict(a=' accuracy', A=' accuracy per output').get(acc, ''))
        if kind in ('Uniform', 'Cauchy') and (wgt or acc):
            continue
        add('L01', nm, l01, kind, wgt, acc, 2, n=2)
        add('L02', nm, l02, kind, wgt, acc, 2, n=2)
for nout in (2, 3):
    add('L01', 'Bernoulli %d categories' % nout, l01, 'Bernoulli', '', '', nout, n=2)
    add('L02', 'Bernoulli %d categories' % nout, l02, 'Bernoulli', '', '', nout, n=2)
for kind in ('Gauss', 'Exponential', 'Poisson'):
    add('L01', '%s fixed scale' % kind, l01, kind, '', '', 1, True)
    add('L01', '%s constrained' % kind, constrained, kind)
for kind in KINDS:
    add('L01', '%s copy' % kind, copies, kind, n=2 if kind == 'Uniform' else None)
MIX = [('Gauss', 'Gauss'), ('Gauss', 'Laplace'), ('Laplace', 'Cauchy'), ('Gauss', 'Exponential'), ('Exponential', 'Gauss'), ('Exponential', 'Exponential'), ('Poisson', 'Gauss'), ('Gauss', 'Poisson')]
for k1, k2 in MIX:
    for wgt, acc in (('', ''), ('w', ''), ('', 'a')):
        if 'Poisson' in (k1, k2) and (wgt or acc) or acc and 'Exponential' in (k1, k2):
            continue
        nm = 'mixture of %s and %s%s%s' % (k1, k2, ' weights' if wgt else '', ' accuracy' if acc else '')
        add('L01', nm, mixed, k1, k2, wgt, acc, False)
        add('L02', nm, mixed, k1, k2, wgt, acc, True)
for acc in ('', 'scalar', 'pair', 'triple', 'pairs', 'triples', 'covar', 'covars'):
    for wgt in ('', 'w'):
        nm = 'errors in x and y, %s%s' % (acc or 'none', ' weights' if wgt else '')
        add('L01', nm, xandy, acc, wgt, False, n=2)
        add('L02', nm, xandy, acc, wgt, True, n=2)
