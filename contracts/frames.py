"""U01: frame conditions.  Every evaluation method runs with arbitrary arguments; afterwards the arguments, the parameters and the
configuration of the object are what they were, results are not shared with either, and the same call gives the same answer after
calls with other arguments, on an object that has been used and on one that has not."""
import numpy as NP
from vc.prove import add
from vc import garr
from contracts.compound import abstract
from contracts.catalog import CAT, KERNELS

COUNTERS = ('ncalls', 'nparts', 'npart', 'ncall')


def plain(v):
    return v is None or isinstance(v, (bool, int, float, str))


def state(obj):
    """what an object holds: path -> value, arrays copied"""
    out = {}
    seen = {}

    def go(o, path):
        if plain(o):
            out[path] = o
            return
        if isinstance(o, garr.GA) if isinstance(garr.GA, type) else False:
            out[path] = garr._raw(o).copy()
            return
        if isinstance(o, NP.ndarray):
            out[path] = NP.array(o, copy=True)
            return
        if id(o) in seen:
            return
        seen[id(o)] = o
        if isinstance(o, dict):
            for k, v in o.items():
                if plain(k):
                    go(v, path + (k,))
            return
        if isinstance(o, (list, tuple)):
            out[path + ('len',)] = len(o)
            for k, v in enumerate(o):
                go(v, path + (k,))
            return
        mod = getattr(type(o), '__module__', '')
        if type(o).__name__ == 'S':
            out[path] = o
            return
        if 'BayesicFitting' in mod or mod.startswith('contracts') or getattr(o, 'npchain', None) is not None:
            for k, v in vars(o).items():
                if k not in COUNTERS:
                    go(v, path + (k,))
    go(obj, ())
    return out


def steady(ctx, label, old, obj):
    """everything that was set is what it was; what was empty or absent may have been filled"""
    new = state(obj)
    for k, v in old.items():
        if v is None:
            continue
        w = new.get(k, 'absent')
        name = '%s: %s' % (label, '.'.join(str(q) for q in k))
        if isinstance(v, NP.ndarray):
            if not isinstance(w, NP.ndarray) or v.shape != w.shape:
                ctx.ok(name, False)
            elif v.dtype != object and w.dtype != object:
                ctx.ok(name, bool(((v == w) | ((v != v) & (w != w))).all()) if v.dtype.kind == 'f' else bool((v == w).all()))
            else:
                ctx.ok(name, all(same(a, b) for a, b in zip(v.ravel(), w.ravel())))
        else:
            ctx.ok(name, same(v, w))


def same(a, b):
    """identical values; for arbitrary reals: the same term"""
    if a is b:
        return True
    if type(a).__name__ == 'S' or type(b).__name__ == 'S':
        return type(a) is type(b) and a.t is b.t or type(a) is type(b) and repr(a.t) == repr(b.t)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def vals(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def agree(ctx, label, a, b):
    a, b = vals(a), vals(b)
    ctx.same('%s: number of answers' % label, len(a), len(b))
    for u, w in zip(a, b):
        if u is None or w is None:
            ctx.ok(label, u is w)
        else:
            ctx.eq(label, u, w)


def spoil(v):
    """the caller may do with an answer what he likes"""
    for u in vals(v):
        if hasattr(u, 'shape') and u.shape:
            try:
                u *= 0
                u += 7
            except (TypeError, ValueError):
                pass


def frame(ctx, make, calls, hold=True):
    """make() -> (object, list of arrays to hold); calls: name -> (f(object, which)), which=0 the arguments, which=1 others"""
    fresh, _ = make()
    obj, arrs = make()
    old = ctx.snap(*arrs)
    st = state(obj)
    first = {}
    for nm, f in calls:
        r = f(fresh, 0)
        first[nm] = [ctx.np.array(u, copy=True) if hasattr(u, 'shape') and u.shape else u for u in vals(r)]
    for nm, f in calls:
        f(obj, 1)
    for nm, f in reversed(calls):
        r = f(obj, 0)
        agree(ctx, '%s after other calls' % nm, r, first[nm])
        spoil(r)
    ctx.unchanged('arguments', arrs, old)
    for nm, f in calls:
        r = f(obj, 0)
        agree(ctx, '%s again' % nm, r, first[nm])
        spoil(f(obj, 1))
    ctx.unchanged('arguments', arrs, old)
    if hold:
        steady(ctx, 'configuration', st, obj)


# ------------------------------------------------------------------------------------------------ models
def model(ctx, name):
    cfg = CAT[name]
    m0 = cfg.build(ctx)
    p = cfg.params(ctx, m0)
    q = cfg.params(ctx, m0, 'q')
    x = cfg.x(ctx, p)
    z = x if name in ('BasicSplinesModel-3', 'BasicSplinesModel-uniform') else cfg.x(ctx, q, 'z')
    start = cfg.params(ctx, m0, 'r')
    A = [(x, p), (z, q)]

    def make():
        m = cfg.build(ctx)
        m.parameters = start.copy()
        return m, [x, p, z, q, start]
    calls = [('value', lambda m, k: m.result(*A[k]))]
    if cfg.part:
        calls.append(('partials', lambda m, k: m.partial(*A[k])))
    if cfg.deriv:
        calls.append(('derivative', lambda m, k: m.derivative(*A[k])))
    frame(ctx, make, calls)


for nm, c in CAT.items():
    add('U01', 'model %s' % nm, model, nm, n=c.n or (3 if c.mode == 'proof' and nm.startswith(('Sof', 'Surf')) else None), maxpaths=c.maxpaths * 4, timeout=c.timeout, mode=c.mode, note=c.note)


def chain(ctx, form):
    A = abstract(ctx)
    a, b, c = A('a', 2), A('b', 1), A('c', 2)
    ctx.cls('Model')

    def make():
        if form == 'sum':
            m = a.copy() + b.copy() + c.copy()
        elif form == 'product':
            m = a.copy() * b.copy() * c.copy()
        elif form == 'mixed':
            m = a.copy() + b.copy() * (c.copy() - a.copy())
        elif form == 'ratio':
            m = a.copy() / b.copy()
        elif form == 'pipe':
            m = a.copy() | b.copy()
        elif form == 'bracket pipe':
            m = (a.copy() + c.copy()) | b.copy()
        elif form == 'repeat':
            m = ctx.cls('RepeatingModel')(2, a.copy(), same=0)
        elif form == 'combi':
            m = ctx.cls('CombiModel')(a.copy(), 2, addCombi={0: [0.0, 1.5]}, mulCombi={1: [1.0, 2.5]})
        elif form == 'fixed':
            m = ctx.cls('PolynomialModel')(2, fixed={1: b.copy(), 2: ctx.const(0.5)})
            m.addModel(c.copy())
        return m, []
    m0, _ = make()
    k = m0.npchain
    p, q, s = ctx.vec('p', k), ctx.vec('q', k), ctx.vec('s', k)
    x, z = ctx.data('x'), ctx.data('z')
    if form == 'ratio':
        for u, v in ((x, p), (z, q)):
            ctx.assume(b.result(u, v[2:]) != 0)
    Z = [(x, p), (z, q)]

    def mk():
        m, _ = make()
        m.parameters = s.copy()
        return m, [x, p, z, q, s]
    calls = [('value', lambda m, k: m.result(*Z[k])), ('partials', lambda m, k: m.partial(*Z[k])), ('derivative', lambda m, k: m.derivative(*Z[k])),
             ('own value', lambda m, k: m(Z[k][0]))]
    frame(ctx, mk, calls)


for form in ('sum', 'product', 'mixed', 'ratio', 'pipe', 'bracket pipe', 'repeat', 'combi', 'fixed'):
    add('U01', 'compound %s' % form, chain, form)


# ------------------------------------------------------------------------------------------------ priors and kernels
def prior(ctx, kind, lim):
    from contracts import priors as P
    keep = {}

    def build():
        if 'p' not in keep:
            keep['p'], keep['st'] = P.make(ctx, kind, lim)
        return keep['p'].copy()
    pr = build()
    st = keep['st']
    u = [ctx.real('u', lo=0.0, hi=1.0), ctx.real('v', lo=0.0, hi=1.0)]
    for w in u:
        ctx.assume(0.0 < w)
        ctx.assume(w < 1.0)
    pts = [pr.unit2Domain(w) for w in u]
    calls = [('domain value', lambda o, k: o.unit2Domain(u[k])), ('unit value', lambda o, k: o.domain2Unit(pts[k])),
             ('density', lambda o, k: o.result(pts[k])), ('log density', lambda o, k: o.logResult(pts[k])),
             ('gradient', lambda o, k: o.partialLog(pts[k])),
             ('in limits', lambda o, k: o.stayInLimits(pts[k])), ('limits', lambda o, k: [v for v in vals(o.getLimits())])]
    frame(ctx, lambda: (build(), []), calls)


for kind in ('UniformPrior', 'JeffreysPrior', 'ExponentialPrior', 'LaplacePrior', 'GaussPrior', 'CauchyPrior'):
    for lim in ('', 'l', 'h', 'lh', 'c'):
        if lim in ('', 'l', 'h') and kind in ('UniformPrior', 'JeffreysPrior') or lim == 'l' and kind == 'ExponentialPrior' or lim == 'c' and kind in ('JeffreysPrior', 'ExponentialPrior'):
            continue
        add('U01', 'prior %s limits %s' % (kind, lim or 'none'), prior, kind, lim)


def kernel(ctx, kn):
    x, z = ctx.data('x'), ctx.data('z')
    A = [x, z]
    calls = [('value', lambda o, k: o.result(A[k])), ('squared argument', lambda o, k: o.resultsq(A[k] * A[k])), ('slope', lambda o, k: o.partial(A[k]))]
    if kn == 'Huber':
        calls = calls[:2]
    frame(ctx, lambda: (ctx.cls('kernels.' + kn)(), [x, z]), calls)


for kn in KERNELS:
    add('U01', 'kernel %s' % kn, kernel, kn)


# ------------------------------------------------------------------------------------------------ likelihoods and problems
def likelihood(ctx, kind, wgt, acc, nout):
    from contracts import errors as E
    c = E.setup(ctx, kind, wgt, acc, nout)
    NPAR = len(c.pars)
    other = ctx.array([ctx.real('o%d' % k) for k in range(2)] + [ctx.real('ohy%d' % k, pos=True) for k in range(NPAR - 2)])
    if kind in ('Poisson', 'Bernoulli'):
        y = c.model.result(c.x, other[:2].copy())
        ctx.assume(y > 0)
        if kind == 'Bernoulli':
            ctx.assume(y < 1)
    pv = [c.pars, other]
    fi = NP.array([0, 1] + list(range(2 - NPAR, 0)), dtype=int)
    P0 = c.problem

    def pieces(o, k):
        return list(o[0].nextPartialData(o[1], pv[k], fi))
    calls = [('log likelihood', lambda o, k: o[0].logLikelihood(o[1], pv[k])), ('partial', lambda o, k: o[0].partialLogL(o[1], pv[k], fi)),
             ('terms', lambda o, k: o[0].logLdata(o[1], pv[k])), ('pieces of the partial', pieces),
             ('residuals', lambda o, k: o[1].residuals(pv[k][:2])),
             ('weighted squares', lambda o, k: o[1].weightedResSq(pv[k])), ('sum of weights', lambda o, k: o[1].sumweight), ('points', lambda o, k: o[1].ndata)]
    if kind in ('Bernoulli',):
        calls = [q for q in calls if q[0] not in ('residuals', 'weighted squares')]
    keep = [v for v in (c.x, c.d, c.w, c.a, c.pars, other) if hasattr(v, 'shape')]
    frame(ctx, lambda: ((c.err.copy(), P0.copy()), keep + [fi]), calls)


for kind in ('Gauss', 'Laplace', 'Cauchy', 'Exponential', 'Uniform', 'Poisson', 'Bernoulli'):
    for wgt, acc in (('', ''), ('w', ''), ('', 'a'), ('w', 'a'), ('', 'scalar')):
        if acc and kind not in ('Gauss', 'Laplace', 'Exponential', 'Uniform'):
            continue
        add('U01', 'likelihood %s %s %s' % (kind, wgt or '-', acc or '-'), likelihood, kind, wgt, acc, 1, n=2 if kind == 'Uniform' else None)


# ------------------------------------------------------------------------------------------------ linear fitters
def fitter(ctx, kind, wgt, acc):
    from contracts import fitters as F
    C = F.Case(ctx, 2)
    y, y2 = ctx.data('y'), ctx.data('y2')
    w, w2 = (ctx.data('w', pos=True), ctx.data('w2', pos=True)) if wgt else (None, None)
    a, a2 = (ctx.data('a', pos=True), ctx.data('a2', pos=True)) if acc else (None, None)
    A = [(y, w, a), (y2, w2, a2)]
    for k in (0, 1):
        if not ctx.sym:
            ctx.assume(not C.degenerate(C.full(*A[k]), [0, 1]))

    def fit(o, k):
        yy, ww, aa = A[k]
        return F.attempt(ctx, lambda: o.fit(yy, weights=ww, accuracy=aa))

    def more(what):
        def f(o, k):
            fit(o, k)
            return F.attempt(ctx, lambda: what(o, k))
        return f
    calls = [('fit', fit), ('hessian', more(lambda o, k: o.getHessian())), ('covariance', more(lambda o, k: o.covariance)),
             ('chisq', more(lambda o, k: o.chiSquared(A[k][0], weights=A[k][1])))]
    if kind == 'QRFitter':
        calls = calls[:1]
    keep = [v for v in (C.x, y, y2, w, w2, a, a2) if v is not None]
    frame(ctx, lambda: (ctx.cls(kind)(C.x, C.m.copy()), keep), calls, hold=False)


for kind in ('Fitter', 'QRFitter'):
    for wgt in (0, 1):
        for acc in (0, 1):
            add('U01', '%s weights %d accuracy %d' % (kind, wgt, acc), fitter, kind, wgt, acc, maxpaths=2000)
