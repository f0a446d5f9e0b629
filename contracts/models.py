"""M01, M02: parameter and input derivatives of every model"""
from vc.prove import scenario, add
from contracts import catalog
from contracts.catalog import CAT


def pointwise(ctx, m, x, p, what, y, f):
    """a data point gets the same answer whatever points are evaluated along with it.  With a generic number of points the
    verifier's data axis already demands that; here for enumerated points, and for the concrete runs"""
    if ctx.sym and ctx.sc.n is None or m.ndim > 1 and len(x) < 2:
        return
    n = len(x)
    perm = [(i * 2 + 1) % n if n % 2 else n - 1 - i for i in range(n)]
    z = f(x[perm], p.copy())
    one = f(x[[n - 1]], p.copy())
    if isinstance(y, (list, tuple)):
        for k in range(len(y)):
            ctx.eq('%s at reordered points' % what, z[k], y[k][perm])
        return
    ctx.eq('%s at reordered points' % what, z, y[perm])
    ctx.eq('%s at a single point' % what, one, y[[n - 1]])


def m01(ctx, name):
    cfg = CAT[name]
    m = cfg.build(ctx)
    p = cfg.params(ctx, m)
    x = cfg.x(ctx, p)
    y = m.result(x, p.copy())
    dp = m.partial(x, p.copy())
    pointwise(ctx, m, x, p, 'value', y, m.result)
    pointwise(ctx, m, x, p, 'partial', dp, m.partial)
    if isinstance(dp, (tuple, list)):
        for k in range(len(dp)):
            ctx.jac('partial of output %d' % k, lambda q: m.result(x, q)[:, k], p, dp[k])
        return
    ctx.jac('partial', lambda q: m.result(x, q), p, dp)


def m02(ctx, name):
    cfg = CAT[name]
    m = cfg.build(ctx)
    p = cfg.params(ctx, m)
    x = cfg.x(ctx, p)
    y = m.result(x, p.copy())
    dx = m.derivative(x, p.copy())
    pointwise(ctx, m, x, p, 'derivative', dx, m.derivative)
    if cfg.k is None:
        if len(y.shape) == 2 and y.shape[1] > 1:
            for k in range(y.shape[1]):
                ctx.ddata('derivative of output %d' % k, lambda z: m.result(z, p)[:, k], x, dx[:, k])
            return
        ctx.ddata('derivative', lambda z: m.result(z, p), x, dx)
        return
    for k in range(cfg.k):
        for o in (range(len(dx)) if isinstance(dx, list) else (None,)):
            def f(z):
                xx = x.copy()
                xx[:, k] = z
                r = m.result(xx, p)
                return r if o is None else r[:, o]
            ctx.ddata('derivative to column %d%s' % (k, '' if o is None else ' of output %d' % o), f, x[:, k].copy(), dx[:, k] if o is None else dx[o][:, k])


for nm, c in CAT.items():
    if c.part:
        add('M01', nm, m01, nm, n=c.n, maxpaths=c.maxpaths, timeout=c.timeout, mode=c.mode, note=c.note)
    if c.deriv:
        add('M02', nm, m02, nm, n=c.n, maxpaths=c.maxpaths, timeout=c.timeout, mode=c.mode, note=c.note)
