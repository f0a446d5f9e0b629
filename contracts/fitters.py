"""F01, F02: linear fitters.  The model is an abstract linear one: its design matrix has uninterpreted columns g_k(x), so what is
proved holds for every linear model that keeps its contract (M01); the number of points is not fixed."""
import math
from vc.prove import add

REFUSED = ('chisq <= 0', 'Singular matrix', 'More parameters', 'dimensions of the array must be square')


def linear(ctx):
    Linear = ctx.cls('LinearModel')
    np = ctx.np
    st = object.__setattr__

    class LModel(Linear):
        def __init__(self, nm, k, ndim=1, copy=None, params=None, **kw):
            Linear.__init__(self, k, ndim=ndim, copy=copy, params=params, **kw)
            st(self, 'nm', nm)
            st(self, 'nk', k)

        def copy(self):
            return LModel(self.nm, self.nk, self.ndim, copy=self)

        def basePartial(self, x, p, parlist=None):
            if len(p) != self.nk:
                raise ValueError('%s is given %d parameters instead of %d' % (self.nm, len(p), self.nk))
            pl = range(self.nk) if parlist is None else parlist
            a = [x] if self.ndim == 1 else [x[:, i] for i in range(self.ndim)]
            return np.array([ctx.ufun('%s_%d' % (self.nm, k))(*a) for k in pl]).T

        def baseName(self):
            return 'L_' + self.nm
    return LModel


def attempt(ctx, f):
    """a refusal that the documentation announces (perfect fit, degenerate model) ends the case"""
    try:
        return f()
    except Exception as e:
        if any(r in str(e) for r in REFUSED):
            ctx.assume(False)
        raise


class Case(object):
    """one fitting problem: model, data, weights, accuracies, kept parameters, constraints"""
    def __init__(self, ctx, p, ndim=1, compound=False, norm=0):
        self.ctx, self.p = ctx, p
        L = linear(ctx)
        if compound:
            self.m = L('g', 1, ndim) + L('h', p - 1, ndim)
        else:
            self.m = L('g', p, ndim)
        self.x = ctx.data('x', k=ndim if ndim > 1 else None)
        self.norm = []
        for r in range(norm):
            self.norm.append(([ctx.real('N%d%d' % (r, k)) for k in range(p)], ctx.real('nd%d' % r), ctx.real('nw%d' % r, pos=True)))

    def constrain(self, f, one=False):
        for row, d, w in self.norm:
            f.normalize(self.ctx.array(row), d, weight=w)

    def cols(self):
        d = self.m.partial(self.x, self.ctx.array([self.ctx.const(0)] * self.p))
        return [d[:, k] for k in range(self.p)]

    def value(self, par):
        r = 0
        for k, c in enumerate(self.cols()):
            r = r + c * par[k]
        return r

    def full(self, y, w, a):
        """combined weights"""
        v = y * 0 + 1
        if w is not None:
            v = v * w
        if a is not None:
            v = v / (a * a)
        return v

    def gram(self, W, j, k):
        c = self.cols()
        r = self.ctx.total(W * c[j] * c[k])
        for row, d, nw in self.norm:
            r = r + nw * row[j] * row[k]
        return r

    def degenerate(self, W, fitted):
        """sampled values only: rounding decides the answer when the design is nearly singular"""
        np = self.ctx.np
        G = np.array([[float(self.gram(W, j, k)) for k in fitted] for j in fitted])
        d = np.sqrt(np.diag(G))
        return not (d > 0).all() or np.linalg.cond(G / np.outer(d, d)) > 1e6

    def optimum(self, tag, par, y, w, a, keep):
        """the gradient of the weighted misfit is zero in every fitted direction, kept parameters are as given"""
        ctx = self.ctx
        W = self.full(y, w, a)
        if not ctx.sym and len(keep) < self.p:
            ctx.assume(not self.degenerate(W, [k for k in range(self.p) if k not in keep]))
        res = y - self.value(par)
        for k, c in enumerate(self.cols()):
            if k in keep:
                ctx.eq('%skept parameter %d' % (tag, k), par[k], keep[k])
                continue
            g = ctx.total(W * c * res)
            for row, d, nw in self.norm:
                r = d
                for j in range(self.p):
                    r = r - row[j] * par[j]
                g = g + nw * row[k] * r
            ctx.eq('%sstationary in %d' % (tag, k), g, ctx.const(0), tol=1e-6)
        return ctx.total(W * res * res)


def inputs(ctx, wgt, acc, tag=''):
    y = ctx.data('y' + tag)
    w = ctx.data('w' + tag, pos=True) if wgt else None
    a = None if not acc else ctx.data('a' + tag, pos=True) if acc == 'a' else ctx.real('acc' + tag, pos=True)
    if acc == 's' and not ctx.sym:
        a = float(a)
    return y, w, a


def kept(ctx, which, tag=''):
    return {k: ctx.real('keep%s%d' % (tag, k)) for k in which}


def lsq(ctx, cls, p, wgt, acc, kc=(), kf=None, norm=0, ndim=1, compound=False):
    """one fit: keep given at construction (kc), in the fit (kf)"""
    C = Case(ctx, p, ndim, compound, norm)
    y, w, a = inputs(ctx, wgt, acc)
    kcd = kept(ctx, kc) if kc else None
    kfd = None if kf is None else kept(ctx, kf, 'f')
    f = ctx.cls(cls)(C.x, C.m, keep=kcd)
    C.constrain(f)
    arrs = [v for v in (C.x, y, w) if v is not None] + ([a] if acc == 'a' else [])
    old = ctx.snap(*arrs)
    par = attempt(ctx, lambda: f.fit(y, weights=w, accuracy=a, keep=kfd))
    use = kfd if kfd is not None else kcd or {}
    ctx.same('number of parameters', len(par), p)
    chi = C.optimum('', par, y, w, a, use)
    ctx.eq('misfit', f.chisq, chi)
    ctx.eq('parameters of the model', C.m.parameters, par)
    ctx.eq('parameters of the fitter', f.parameters, par)
    ctx.eq('fitted values', f.yfit, C.value(par))
    ctx.unchanged('data and weights', arrs, old)
    ctx.same('fitted parameters', f.npfit, p - len(use))


def history(ctx, cls, p, steps, kc=(), norm=0, normat=0):
    """several fits with one fitter; each step (weights, accuracies, kept): what a fresh fitter would return"""
    C = Case(ctx, p, norm=norm)
    kcd = kept(ctx, kc) if kc else None
    f = ctx.cls(cls)(C.x, C.m, keep=kcd)
    rows, C.norm = C.norm, []
    for i, (wgt, acc, kf) in enumerate(steps):
        if i == normat and rows:
            C.norm = rows
            C.constrain(f)
        y, w, a = inputs(ctx, wgt, acc, str(i))
        kfd = None if kf is None else kept(ctx, kf, 'f%d' % i)
        par = attempt(ctx, lambda: f.fit(y, weights=w, accuracy=a, keep=kfd))
        use = kfd if kfd is not None else kcd or {}
        chi = C.optimum('fit %d: ' % i, par, y, w, a, use)
        ctx.eq('fit %d: misfit' % i, f.chisq, chi)
        ctx.eq('fit %d: parameters of the model' % i, C.m.parameters, par)


for cls in ('Fitter', 'QRFitter'):
    qr = cls == 'QRFitter'
    for wgt in ('', 'w'):
        for acc in ('', 'a', 's'):
            nm = '%s%s%s' % (cls, ' weights' if wgt else '', dict(a=' accuracies', s=' one accuracy').get(acc, ''))
            for p in (1, 2) if qr else (1, 2, 3):
                add('F01', '%s %d parameters' % (nm, p), lsq, cls, p, wgt, acc)
            add('F01', nm + ' kept by the fitter', lsq, cls, 3, wgt, acc, (1,))
            add('F01', nm + ' kept in the fit', lsq, cls, 3, wgt, acc, (), (0,))
            add('F01', nm + ' one constraint', lsq, cls, 2, wgt, acc, (), None, 1)
            add('F01', nm + ' constraints and kept', lsq, cls, 3, wgt, acc, (2,), None, 2)
    add('F01', cls + ' kept both', lsq, cls, 3, 'w', '', (0,), (2, 1))
    add('F01', cls + ' two inputs', lsq, cls, 2, 'w', '', (), None, 0, 2)
    add('F01', cls + ' compound', lsq, cls, 3, 'w', '', (0,), None, 0, 1, True)
    H = dict(weights=[('', '', None), ('w', '', None), ('', '', None)], accuracies=[('', 'a', None), ('', '', None), ('', 's', None)],
             kept=[('', '', (0,)), ('', '', None), ('', '', (1,))], mixed=[('w', 'a', (1,)), ('', 'a', None), ('w', '', (0,))],
             same=[('', '', None), ('', '', None)])
    for k, s in H.items():
        add('F01', '%s history %s' % (cls, k), history, cls, 2, s)
    add('F01', cls + ' history kept by the fitter', history, cls, 3, [('', '', None), ('w', '', (2,)), ('', '', None)], (0,))
    add('F01', cls + ' history constraint later', history, cls, 2, [('', '', None), ('', '', None)], (), 1, 1)


def null(ctx, cls, wgt, acc):
    """nothing to fit: the misfit of the model itself"""
    m = ctx.cls('PolynomialModel')(0, fixed={0: 1.5})
    x = ctx.data('x')
    y, w, a = inputs(ctx, wgt, acc)
    f = ctx.cls(cls)(x, m)
    attempt(ctx, lambda: f.fit(y, weights=w, accuracy=a))
    v = (y - 1.5) * (y - 1.5)
    if w is not None:
        v = v * w
    if a is not None:
        v = v / (a * a)
    ctx.eq('misfit', f.chisq, ctx.total(v))


# ------------------------------------------------------------------------------------------------ F02
def det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        r = r + (-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
    return r


def unsure(ctx, C, f, tag, w, a, y, use, fixed=None, limits=None, noise=None, minscale=None, priors=None, do=('cov', 'sd', 'scale', 'logZ')):
    """covariance, deviations, scale and evidence after a fit, against Hessian and misfit"""
    np = ctx.np
    p = C.p
    idx = [k for k in range(p) if k not in use]
    W = C.full(y, w, a)
    G = [[C.gram(W, j, k) for k in idx] for j in idx]
    n = len(idx)
    if ctx.sym and n:
        ctx.assume(det(G) > 0)                # not degenerate
    par = C.m.parameters
    res = y - C.value(par)
    chi = ctx.total(W * res * res)
    sw = ctx.total(w if w is not None else y * 0 + 1)
    dof = sw - n
    var = chi / dof
    if minscale is not None:
        var = var + minscale * minscale
    if 'cov' in do:
        cov = attempt(ctx, lambda: f.covariance)
        ctx.same(tag + 'covariance over the fitted parameters', tuple(cov.shape), (n, n))
        for i in range(n):
            for j in range(n):
                s = 0
                for k in range(n):
                    s = s + G[i][k] * cov[k, j]
                ctx.eq('%scovariance is the inverse Hessian times the variance (%d,%d)' % (tag, i, j), s / var, ctx.const(int(i == j)), tol=1e-6)
    if 'sd' in do:
        sd = attempt(ctx, lambda: f.stdevs)
        cov = f.covariance
        ctx.same(tag + 'number of deviations', len(sd), p)
        for i, k in enumerate(idx):
            ctx.eq('%ssquared deviation %d' % (tag, k), sd[k] * sd[k], cov[i, i])
            ctx.le('%sdeviation %d not negative' % (tag, k), ctx.const(0), sd[k])
        for k in use:
            ctx.eq('%sdeviation of kept %d' % (tag, k), sd[k], ctx.const(0))
        ctx.eq(tag + 'deviations of the model', C.m.stdevs, sd)
    if 'scale' in do:
        sc = attempt(ctx, lambda: f.scale)
        ctx.eq(tag + 'scale', sc * sc, chi / dof)
        ctx.le(tag + 'scale not negative', ctx.const(0), sc)
        ctx.eq(tag + 'deviation of the scale', f.stdevScale * f.stdevScale, chi / dof / (2 * sw))
    if 'logZ' in do:
        z = attempt(ctx, lambda: f.getLogZ(limits=limits, noiseLimits=noise) if limits is not None or noise is not None else f.logZ)
        s2 = ctx.const(1) if fixed is None else fixed * fixed
        if noise is not None:
            s2 = var
        sla = 0
        if a is not None:
            sla = ctx.total(np.log(a) * (w if w is not None else y * 0 + 1)) if hasattr(a, 'shape') and len(a.shape) else sw * np.log(a)
        lp = 2 * np.pi
        L = -(sw * np.log(lp * s2) + chi / s2) / 2 - sla
        ctx.eq(tag + 'log likelihood', f.logLikelihood, L)
        occ = 0
        if n:
            occ = (n * np.log(lp * s2) - np.log(det(G))) / 2
        if limits is not None:
            lo, hi = limits
            lo, hi = (v if isinstance(v, list) else [v] * n for v in (lo, hi))
            rng = [h - l for l, h in zip(lo, hi)]
            if len(rng) > n:
                rng = [rng[k] for k in idx]
        else:
            rng = [priors[k] for k in idx]
        for r in rng:
            occ = occ - np.log(r)
        if noise is not None:
            # the posterior of log(scale) has width sqrt(pi/dof), its prior spans log(high/low)
            occ = occ + np.log(np.pi / dof) / 2 - np.log(np.log(noise[1]) - np.log(noise[0]))
        ctx.eq(tag + 'log evidence', z, L + occ, tol=1e-6)
        ctx.eq(tag + 'Occam factor', f.logOccam, occ, tol=1e-6)
        z10 = f.getEvidence(limits=limits, noiseLimits=noise) if limits is not None or noise is not None else f.evidence
        ctx.eq(tag + 'evidence in base ten', z10 * np.log(10), z)


def positive(ctx, C, y, w, use):
    """more points than parameters; sampled values: not degenerate"""
    n = C.p - len(use)
    sw = ctx.total(w if w is not None else y * 0 + 1)
    ctx.assume(sw - n > (0 if ctx.sym else 0.1))
    ctx.assume(ctx.total(y * 0 + 1) > 1)


def evid(ctx, cls, p, wgt, acc, kc=(), kf=None, fixed=False, lim='scalar', noise=False, minscale=False, norm=0, compound=False, do=('cov', 'sd', 'scale', 'logZ')):
    C = Case(ctx, p, compound=compound, norm=norm)
    y, w, a = inputs(ctx, wgt, acc)
    kcd = kept(ctx, kc) if kc else None
    kfd = None if kf is None else kept(ctx, kf, 'f')
    use = kfd if kfd is not None else kcd or {}
    positive(ctx, C, y, w, use)
    kw = {}
    fs = None
    if fixed:
        fs = ctx.real('fixedScale', pos=True)
        kw['fixedScale'] = fs if ctx.sym else float(fs)
    n = p - len(use)
    limits = priors = None
    if lim == 'scalar':
        limits = [ctx.real('lo'), None]
        limits[1] = limits[0] + ctx.real('range', pos=True)
    elif lim == 'list':
        lo = [ctx.real('lo%d' % k) for k in range(n)]
        limits = [lo, [v + ctx.real('range%d' % k, pos=True) for k, v in enumerate(lo)]]
    elif lim == 'all':
        lo = [ctx.real('lo%d' % k) for k in range(p)]
        limits = [lo, [v + ctx.real('range%d' % k, pos=True) for k, v in enumerate(lo)]]
    elif lim == 'priors':
        priors = []
        for k in range(p):
            C.m.setPrior(k, ctx.cls('UniformPrior')(limits=[-1.0 - k, 2.0 + k * k]))
            priors.append(ctx.const(3 + k + k * k))
    nl = None
    if noise:
        s0 = ctx.real('scalelow', pos=True)
        nl = [s0, s0 * (1 + ctx.real('scalefactor', pos=True))]
        if not ctx.sym:
            nl = [float(v) for v in nl]
    f = ctx.cls(cls)(C.x, C.m, keep=kcd, **kw)
    C.constrain(f)
    ms = None
    if minscale:
        ms = ctx.real('minimumScale', pos=True)
        f.setMinimumScale(ms)
    arrs = [v for v in (C.x, y, w) if v is not None]
    old = ctx.snap(*arrs)
    par = attempt(ctx, lambda: f.fit(y, weights=w, accuracy=a, keep=kfd))
    if not ctx.sym and n:
        ctx.assume(not C.degenerate(C.full(y, w, a), [k for k in range(p) if k not in use]))
    unsure(ctx, C, f, '', w, a, y, use, fs, limits, nl, ms, priors, do)
    ctx.eq('parameters unchanged', C.m.parameters, par)
    ctx.unchanged('arrays', arrs, old)


def evhistory(ctx, cls, p, steps, kc=(), do=('cov', 'sd', 'scale', 'logZ')):
    """uncertainties of every fit in a sequence are those of that fit"""
    C = Case(ctx, p)
    kcd = kept(ctx, kc) if kc else None
    f = ctx.cls(cls)(C.x, C.m, keep=kcd)
    lo = ctx.real('lo')
    limits = [lo, lo + ctx.real('range', pos=True)]
    for i, (wgt, acc, kf) in enumerate(steps):
        y, w, a = inputs(ctx, wgt, acc, str(i))
        kfd = None if kf is None else kept(ctx, kf, 'f%d' % i)
        use = kfd if kfd is not None else kcd or {}
        positive(ctx, C, y, w, use)
        attempt(ctx, lambda: f.fit(y, weights=w, accuracy=a, keep=kfd))
        if not ctx.sym:
            ctx.assume(not C.degenerate(C.full(y, w, a), [k for k in range(p) if k not in use]))
        unsure(ctx, C, f, 'fit %d: ' % i, w, a, y, use, limits=limits, do=do if i % 2 == 0 else do[::-1])


for cls in ('Fitter', 'QRFitter'):
    for wgt in ('', 'w'):
        for acc in ('', 'a', 's'):
            nm = '%s%s%s' % (cls, ' weights' if wgt else '', dict(a=' accuracies', s=' one accuracy').get(acc, ''))
            add('F01', nm + ' null model', null, cls, wgt, acc)
            add('F02', nm, evid, cls, 2, wgt, acc)
            add('F02', nm + ' kept by the fitter', evid, cls, 2, wgt, acc, (1,), None, False, 'list')
            add('F02', nm + ' kept in the fit', evid, cls, 2, wgt, acc, (), (0,), False, 'list')
            add('F02', nm + ' scale fitted', evid, cls, 2, wgt, acc, (), None, False, 'list', True)
            add('F02', nm + ' kept, scale fitted', evid, cls, 2, wgt, acc, (0,), None, False, 'priors', True)
            if cls == 'Fitter':
                add('F02', nm + ' fixed scale', evid, cls, 2, wgt, acc, (), None, True, 'priors')
                add('F02', nm + ' three parameters, one kept', evid, cls, 3, wgt, acc, (), (1,), True, 'all')
    add('F02', cls + ' compound with priors', evid, cls, 3, '', '', (1,), None, False, 'priors', False, False, 0, True)
    add('F02', cls + ' compound, kept in the fit', evid, cls, 3, '', '', (), (0,), False, 'priors', False, False, 0, True)
    add('F02', cls + ' minimum scale', evid, cls, 2, 'w', '', (), None, False, 'list', True, True)
    add('F02', cls + ' constraint', evid, cls, 2, 'w', '', (), None, False, 'list', False, False, 1)
    add('F02', cls + ' all kept', evid, cls, 2, 'w', '', (), (0, 1), False, 'list', False, False, 0, False, ('scale', 'logZ'))
    add('F02', cls + ' history weights', evhistory, cls, 2, [('', '', None), ('w', '', None), ('', 'a', None)])
    add('F02', cls + ' history kept', evhistory, cls, 2, [('', '', (0,)), ('', '', None), ('', '', (1,))])
    add('F02', cls + ' history, kept by the fitter', evhistory, cls, 2, [('w', '', None), ('', '', (1,)), ('w', 'a', None)], (0,))
