"""L03: problems.  Abstract model, any data; priors of the parameters by their own mapping."""
import math
from vc.prove import add
from contracts.compound import abstract

TWO = ('ClassicProblem', 'EvidenceProblem')


def classic(ctx, wgt, cyclic, cls='ClassicProblem'):
    np = ctx.np
    A = abstract(ctx)
    m = A('f', 2)
    x, d = ctx.data('x'), ctx.data('d')
    w = ctx.data('w', nonneg=True) if wgt else None
    per = None
    if cyclic:
        per = ctx.real('period', pos=True) if ctx.sym else ctx.real('period', lo=1.0, hi=9.0)
        object.__setattr__(m, 'cyclic', per if ctx.sym else float(per))
    P = ctx.cls(cls)(model=m, xdata=x, ydata=d, weights=w)
    p = ctx.array([ctx.real('p0'), ctx.real('p1')])
    keep = [v for v in (x, d, w, p) if v is not None]
    old = ctx.snap(*keep)
    y = m.result(x, p.copy())
    raw = d - y
    if cyclic:
        ctx.assume(np.abs(raw) < 1.5 * per)
        ctx.assume(np.abs(raw) != per / 2)
    ctx.same('parameters', P.npars, 2)
    ctx.eq('result', P.result(p), y)
    ctx.eq('partials', P.partial(p), m.partial(x, p))
    ctx.eq('derivative', P.derivative(p), m.derivative(x, p))
    want = raw if not cyclic else np.where(raw > per / 2, raw - per, np.where(raw < -per / 2, raw + per, raw))
    ctx.eq('residuals', P.residuals(p), want)
    ctx.eq('residuals of given mock data', P.residuals(p, mockdata=y.copy()), want)
    ww = want * w if wgt else want
    ctx.eq('weighted squares', P.weightedResSq(p), ww * want)
    sq, wr = P.weightedResSq(p, extra=True)
    ctx.eq('weighted squares with extra', sq, ww * want)
    ctx.eq('weighted residuals', wr, ww)
    hy = ctx.real('scale', pos=True)
    ctx.eq('weighted squares, hyper parameters too', P.weightedResSq(ctx.array([p[0], p[1], hy])), ww * want)
    ctx.eq('points', P.ndata, ctx.total(d * 0 + 1))
    ctx.eq('sum of the weights', P.sumweight, ctx.total(w if wgt else d * 0 + 1))
    # other weights later
    v = ctx.data('v', pos=True)
    Q = P.copy()
    Q.weights = v
    ctx.eq('sum of the new weights', Q.sumweight, ctx.total(v))
    ctx.eq('squares with the new weights', Q.weightedResSq(p), v * want * want)
    ctx.eq('sum of the weights of the original', P.sumweight, ctx.total(w if wgt else d * 0 + 1))
    ctx.eq('squares of the original', P.weightedResSq(p), ww * want)
    Q.weights = None
    ctx.eq('without weights', Q.sumweight, ctx.total(d * 0 + 1))
    ctx.eq('squares without weights', Q.weightedResSq(p), want * want)
    R = P.copy()
    ctx.same('kind of copy', type(R) is type(P), True)
    ctx.eq('residuals of the copy', R.residuals(p), want)
    ctx.eq('squares of the copy', R.weightedResSq(p), ww * want)
    ctx.unchanged('arrays', keep, old)


def multiple(ctx, nout, wgt, acc, cyclic):
    np = ctx.np
    A = abstract(ctx)
    m = A('f', 2, ndout=nout)
    x, d = ctx.data('x'), ctx.data('d', k=nout)
    w = None if not wgt else ctx.data('w', pos=True) if wgt == 'w' else ctx.data('w', k=nout, pos=True)
    a = None if not acc else ctx.data('acc', pos=True) if acc == 'a' else ctx.real('acc', pos=True) if acc == 'scalar' else ctx.data('acc', k=nout, pos=True)
    n = ctx.N()
    per = None
    if cyclic:
        per = ctx.real('period', pos=True) if ctx.sym else ctx.real('period', lo=1.0, hi=9.0)
        object.__setattr__(m, 'cyclic', {1: per if ctx.sym else float(per)})
    P = ctx.cls('MultipleOutputProblem')(model=m, xdata=x, ydata=d, weights=w, accuracy=a)
    p = ctx.array([ctx.real('p0'), ctx.real('p1')])
    keep = [v for v in (x, d, w, p) if v is not None]
    old = ctx.snap(*keep)
    y = m.result(x, p.copy())
    dm = m.partial(x, p.copy())
    raw = d - y
    if cyclic:
        ctx.assume(np.abs(raw[:, 1]) < 1.5 * per)
        ctx.assume(np.abs(raw[:, 1]) != per / 2)
    res, rows, ww, aa = [], [], [], []
    for i in range(n):
        for k in range(nout):
            r = raw[i, k]
            if cyclic and k == 1:
                r = np.where(r > per / 2, r - per, np.where(r < -per / 2, r + per, r))
            res.append(r)
            rows.append([dm[k][i, j] for j in range(2)])
            ww.append(1 if w is None else w[i] if wgt == 'w' else w[i, k])
            if acc:
                aa.append(a if acc == 'scalar' else a[i] if acc == 'a' else a[i, k])
    res = ctx.array([r + 0 for r in res])
    ww = ctx.array([ctx.const(1) if w is None else v for v in ww])
    ctx.eq('residuals', P.residuals(p), res)
    ctx.eq('residuals of given mock data', P.residuals(p, mockdata=y.copy()), res)
    ctx.eq('result', P.result(p), y)
    ctx.eq('partials', P.partial(p), np.array(rows))
    ctx.eq('weighted squares', P.weightedResSq(p), ww * res * res)
    if acc:
        ctx.eq('accuracy', P.accuracy + 0 * res, ctx.array(aa))
    if not (acc and not wgt):
        ctx.eq('sum of the weights', P.sumweight, ctx.total(ww))
    R = P.copy()
    ctx.eq('residuals of the copy', R.residuals(p), res)
    ctx.eq('squares of the copy', R.weightedResSq(p), ww * res * res)
    ctx.eq('data', P.ydata, d)
    ctx.unchanged('arrays', keep, old)


def xandy(ctx, wgt, acc, cyclic):
    np = ctx.np
    n = ctx.N()
    A = abstract(ctx)
    m = A('f', 2)
    x, d, xt = ctx.data('x'), ctx.data('d'), ctx.data('xt')
    w = ctx.data('w', pos=True) if wgt else None
    per = None
    if cyclic:
        per = ctx.real('period', pos=True) if ctx.sym else ctx.real('period', lo=1.0, hi=9.0)
        object.__setattr__(m, 'cyclic', per if ctx.sym else float(per))
    kw = dict(accuracy=np.array([ctx.real('ay', pos=True), ctx.real('ax', pos=True)])) if acc else {}
    prior = ctx.cls('GaussPrior')(scale=ctx.real('sg', pos=True) if ctx.sym else float(ctx.real('sg', lo=0.5, hi=2.0)))
    for k, (lo, hi) in enumerate(((-3.0, 5.0), (2.0, 9.0))):
        m.setPrior(k, ctx.cls('UniformPrior')(limits=[lo, hi]))
    P = ctx.cls('ErrorsInXandYProblem')(model=m, xdata=x, ydata=d, weights=w, prior=prior, **kw)
    pm = [ctx.real('p0'), ctx.real('p1')]
    p = ctx.array(pm + [xt[i] for i in range(n)])
    s = ctx.real('scale', pos=True) if ctx.sym else ctx.real('scale', lo=0.3, hi=3.0)
    y = m.result(xt, ctx.array(pm))
    raw = d - y
    if cyclic:
        ctx.assume(np.abs(raw) < 1.5 * per)
        ctx.assume(np.abs(raw) != per / 2)
    want = raw if not cyclic else np.where(raw > per / 2, raw - per, np.where(raw < -per / 2, raw + per, raw))
    ctx.same('parameters', P.npars, 2 + n)
    ctx.eq('result', P.result(p), y)
    ctx.eq('residuals', P.residuals(p), want)
    yr, xr = P.getXYresiduals(p)
    ctx.eq('residuals in y', yr, want)
    ctx.eq('residuals in x', xr, x - xt)
    full = ctx.array(list(p) + [s])
    a, b = (kw['accuracy'][0] ** 2 + s * s, kw['accuracy'][1] ** 2 + s * s) if acc else (s * s, s * s)
    sq = want * want / a + (x - xt) * (x - xt) / b
    ctx.eq('weighted squares', P.weightedResSq(full), sq if w is None else w * sq)
    ctx.eq('derivative', P.derivative(p), m.derivative(xt, ctx.array(pm)))
    part = P.partial(p)
    dm, dx = m.partial(xt, ctx.array(pm)), m.derivative(xt, ctx.array(pm))
    z = ctx.const(0)
    ctx.eq('partials', part, np.array([[dm[i, j] for j in range(2)] + [dx[i] if i == k else z for k in range(n)] for i in range(n)]
                                      + [[z, z] + [ctx.const(1) if i == k else z for k in range(n)] for i in range(n)]))
    R = P.copy()
    ctx.same('parameters of the copy', R.npars, 2 + n)
    ctx.eq('squares of the copy', R.weightedResSq(full), sq if w is None else w * sq)
    ctx.same('accuracy of the copy', R.hasAccuracy, bool(acc))
    ctx.eq('squares of the original', P.weightedResSq(full), sq if w is None else w * sq)
    # unit space: every parameter its own prior, the true positions about the given ones
    E = ctx.cls('Gauss2dErrorDistribution')(limits=[0.01, 100.0])
    G = engine(ctx, E)
    u = [ctx.real('u%d' % k, lo=0.05, hi=0.95) for k in range(3 + n)]
    if ctx.sym:
        for v in u:
            ctx.assume(v > 0)
            ctx.assume(v < 1)
    U = ctx.array(u)
    want = [-3 + 8 * u[0], 2 + 7 * u[1]] + [prior.unit2Domain(u[2 + i]) + x[i] for i in range(n)] + [E.hyperpar[0].prior.unit2Domain(u[2 + n])]
    D = G.unit2Domain(P, U)
    ctx.eq('to the domain', D, ctx.array(want))
    ctx.eq('and back', G.domain2Unit(P, D), ctx.array([u[0], u[1]] + [prior.domain2Unit(prior.unit2Domain(u[2 + i]) + x[i] - x[i]) for i in range(n)]
                                                      + [E.hyperpar[0].prior.domain2Unit(E.hyperpar[0].prior.unit2Domain(u[2 + n]))]))


def engine(ctx, E):
    return ctx.cls('Engine')(ctx.cls('WalkerList')(), E)


def mapping(ctx, nh):
    """parameters between unit space and domain: every one by its own prior"""
    A = abstract(ctx)
    m = A('f', 3)
    lims = [(-3.0, 5.0), (2.0, 9.0), (-1.0, 0.5)]
    for k, (lo, hi) in enumerate(lims):
        m.setPrior(k, ctx.cls('UniformPrior')(limits=[lo, hi]))
    E = ctx.cls({0: 'Poisson', 1: 'Gauss', 2: 'Exponential'}[nh] + 'ErrorDistribution')(**({} if nh == 0 else dict(limits=[0.01, 100.0]) if nh == 1 else dict(limits=[[0.01, 0.2], [100.0, 8.0]])))
    G = engine(ctx, E)
    x, d = ctx.data('x'), ctx.data('d')
    P = ctx.cls('ClassicProblem')(model=m, xdata=x, ydata=d)
    u = [ctx.real('u%d' % k, lo=0.05, hi=0.95) for k in range(3 + nh)]
    if ctx.sym:
        for v in u:
            ctx.assume(v > 0)
            ctx.assume(v < 1)
    own = [lo + v * (hi - lo) for v, (lo, hi) in zip(u, lims)] + [E.hyperpar[k].prior.unit2Domain(u[3 + k]) for k in range(nh)]
    U = ctx.array(u)
    old = ctx.snap(U)
    D = G.unit2Domain(P, U)
    ctx.eq('to the domain', D, ctx.array(own))
    back = u[:3] + [E.hyperpar[k].prior.domain2Unit(own[3 + k]) for k in range(nh)]
    ctx.eq('and back', G.domain2Unit(P, D), ctx.array(back))
    ctx.unchanged('unit values', [U], old)
    full = [0, 1, 2] + list(range(-nh, 0))
    for pick in [[0], [1], [2], [2, 0], [1, 2, 0], full[::-1], full[1:]] + ([[-1], [1, -1], [-1, 0]] if nh else []):
        pos = [k if k >= 0 else 3 + nh + k for k in pick]
        D = G.unit2Domain(P, ctx.array([u[k] for k in pos]), kpar=pick)
        ctx.eq('of %s to the domain' % pick, D, ctx.array([own[k] for k in pos]))
        ctx.eq('of %s and back' % pick, G.domain2Unit(P, D, kpar=pick), ctx.array([back[k] for k in pos]))
    for k in full:
        pos = k if k >= 0 else 3 + nh + k
        ctx.eq('parameter %d to the domain' % k, G.unit2Domain(P, u[pos], kpar=k), own[pos])
        ctx.eq('parameter %d and back' % k, G.domain2Unit(P, own[pos], kpar=k), back[pos])


def dynamic(ctx, cls):
    """the copy of a problem with a dynamic model has a model of its own"""
    m = ctx.cls('PolynomialDynamicModel')(2)
    x, d = ctx.data('x'), ctx.data('d')
    P = ctx.cls(cls)(model=m, xdata=x, ydata=d)
    p = ctx.array([ctx.real('p%d' % k) for k in range(3)])
    m.parameters = p
    y = m.result(x, p.copy())
    Q = P.copy()
    ctx.same('own model', Q.model is P.model, False)
    ctx.eq('residuals of the copy', Q.residuals(p), d - y)
    Q.model.parameters = p * 2
    ctx.eq('parameters of the original', m.parameters, p)
    ctx.eq('residuals', P.residuals(p), d - y)


for wgt in ('', 'w'):
    for cyc in (False, True):
        add('L03', 'classic%s%s' % (' weights' if wgt else '', ' cyclic' if cyc else ''), classic, wgt, cyc)
for nout in (2, 3):
    for wgt in ('', 'w', 'W'):
        for acc in ('', 'a', 'A', 'scalar'):
            if nout == 3 and acc:
                continue
            for cyc in (False, True):
                if cyc and acc:
                    continue
                nm = '%d outputs%s%s%s' % (nout, dict(w=' weights', W=' weights per output').get(wgt, ''), dict(a=' accuracy', A=' accuracy per output', scalar=' one accuracy').get(acc, ''), ' cyclic' if cyc else '')
                add('L03', nm, multiple, nout, wgt, acc, cyc, n=2)
for wgt in ('', 'w'):
    for acc in (False, True):
        for cyc in (False, True):
            add('L03', 'errors in x and y%s%s%s' % (' weights' if wgt else '', ' accuracies' if acc else '', ' cyclic' if cyc else ''), xandy, wgt, acc, cyc, n=2)
for nh in (0, 1, 2):
    add('L03', 'unit space with %d hyper parameters' % nh, mapping, nh)
for cls in TWO:
    add('L03', '%s of a dynamic model' % cls, dynamic, cls)
