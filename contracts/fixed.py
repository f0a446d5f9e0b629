"""M05: fixed parameters.  fixed={i: number} for every shipped model and every subset of up to two parameters (all subsets for
small models), and parameters replaced by (abstract) models."""
import itertools
from vc.prove import add
from contracts.catalog import CAT
from contracts.compound import abstract, W2

VALS = [0.7, 0.4, 0.9, 0.3, 0.6, 0.2, 0.8, 0.5]


def subsets(n, most):
    r = [s for k in range(1, n) for s in itertools.combinations(range(n), k)]
    if len(r) > most:
        r = [(i,) for i in range(n)] + [(0, n - 1), (1, 2), tuple(range(0, n, 2)), tuple(range(n - 1)), tuple(range(1, n))]
        r = list(dict.fromkeys(s for s in r if len(s) < n))
    return r


def m05(ctx, name):
    """numbers: the restricted model is the free one with the numbers filled in"""
    cfg = CAT[name]
    free = cfg.build(ctx, {'fixed': {}} if name.startswith('Pade') else None)
    n = free.npars
    sub = ctx.choose([(0,), (1, n - 2), tuple(range(n - 1))] if name.startswith("BasicSplinesModel") else subsets(n, 8) or [(0,)])
    neg = len(sub) == 1 and ctx.choose([False, True])       # a negative index counts from the end
    full = cfg.params(ctx, free).copy()
    fix = {}
    for i in sub:
        full[i] = ctx.const(VALS[i % 8])
        fix[i - n if neg else i] = VALS[i % 8]
    if len(fix) > 1 and (not ctx.sym or ctx.choose([False, True])):     # the order in which they are given does not matter
        fix = {i: fix[i] for i in sorted(fix, key=lambda j: (j % 2, -j))}
    m = cfg.build(ctx, {'fixed': fix})
    if (name.startswith('BasicSplinesModel-') and name[-1] != '0' and 'copy' or ctx.choose(['', 'copy'])) == 'copy' and cfg.copyable:
        m = m.copy()
    rest = [i for i in range(n) if i not in sub]
    idx = ctx.np.asarray(rest, dtype=int)
    ctx.eq('number of parameters', m.npars, len(rest))
    ctx.eq('default parameters', m.parameters, free.parameters[idx])
    if n and not free.parNames[0].startswith('parameter_'):
        ctx.same('names', list(m.parNames), [free.parNames[i] for i in rest])
    x = cfg.x(ctx, full)
    q = full[idx]
    ctx.eq('value', m.result(x, q.copy()), free.result(x, full.copy()))
    if cfg.part:
        ctx.eq('partial', m.partial(x, q.copy()), free.partial(x, full.copy())[:, idx])
    if cfg.deriv:
        ctx.eq('derivative', m.derivative(x, q.copy()), free.derivative(x, full.copy()))


for nm, c in CAT.items():
    if c.fixable and not nm.startswith('BSplines'):
        add('M05', nm, m05, nm, n=c.n, maxpaths=1500, timeout=c.timeout, note=c.note)


def forbid(ctx):
    for w in ('BSplinesModel',):
        ctx.raises('fixed is refused', AttributeError, lambda: ctx.model(w, knots=[0.0, 1.0, 2.0], order=2, fixed={0: 1.0}))
    ctx.raises('BracketModel refuses fixed', AttributeError, lambda: ctx.model('BracketModel', ctx.model('GaussModel'), fixed={0: 1.0}))


add('M05', 'refusals', forbid)


def m05a(ctx, k, sub, where):
    """abstract model with k parameters, the subset fixed to numbers, alone or as a member of a chain"""
    AM = abstract(ctx)
    fix = {i: VALS[i] for i in sub}
    if k % 2 == 0:
        fix = dict(reversed(list(fix.items())))
    A, M, B = AM('A', 2), AM('M', k, fixed=fix), AM('B', 1)
    free = AM('M', k)
    rest = [i for i in range(k) if i not in sub]
    pa, pb, q = ctx.vec('a', 2), ctx.vec('b', 1), ctx.vec('q', len(rest))
    full = [None] * k
    for i in sub:
        full[i] = ctx.const(VALS[i])
    for i, v in zip(rest, q):
        full[i] = v
    full = ctx.array(full)
    if where == '+':
        A += M
        A += B
        ref = AM('A', 2) + free + AM('B', 1)
    elif where == '*':
        A *= M
        A *= B
        ref = AM('A', 2) * free * AM('B', 1)
    else:
        A |= M
        A += B
        ref = (AM('A', 2) | free) + AM('B', 1)
    x = ctx.data('x')
    p = ctx.array(list(pa) + list(q) + list(pb))
    r = ctx.array(list(pa) + list(full) + list(pb))
    keep = [0, 1] + [2 + i for i in rest] + [2 + k]
    ctx.eq('value', A.result(x, p.copy()), ref.result(x, r.copy()))
    ctx.eq('partial', A.partial(x, p.copy()), ref.partial(x, r.copy())[:, keep])
    ctx.eq('derivative', A.derivative(x, p.copy()), ref.derivative(x, r.copy()))


for k in (2, 3, 4):
    for sub in subsets(k, 99):
        for where in '+*|':
            add('M05', 'chain %s of %d fixed %s' % (where, k, ','.join(map(str, sub))), m05a, k, sub, where)


def m05m(ctx, k, spec, ndim, way):
    """parameters of an abstract model replaced: spec index -> number of parameters of the model replacing it, or None: a number"""
    AM = abstract(ctx)
    fix = {}
    for i, n in spec:
        if n is None:
            fix[i] = VALS[i]
        elif isinstance(n, int):
            fix[i] = AM('R%d' % i, n, ndim)
        else:                                                # a compound model
            fix[i] = AM('R%d' % i, n[0], ndim) + AM('S%d' % i, n[1], ndim)
    m = AM('M', k, ndim, fixed=fix)
    if way == 'copy':
        m = m.copy()
    rest = [i for i in range(k) if i not in dict(spec)]
    q = [ctx.real('q%d' % i) for i in range(m.npars)]
    np_ = len(rest)
    tot = np_ + sum(n if isinstance(n, int) else sum(n) for i, n in spec if n is not None)
    ctx.eq('number of parameters', m.npars, tot)
    x = ctx.data('x', k=None if ndim == 1 else ndim)
    cols = [x] if ndim == 1 else [x[:, i] for i in range(ndim)]
    val = [None] * k
    for i, v in zip(rest, q):
        val[i] = v
    at = np_
    for i, n in spec:
        if n is None:
            val[i] = ctx.const(VALS[i])
        elif isinstance(n, int):
            val[i] = ctx.ufun('R%d_0' % i)(*(q[at:at + n] + cols))
            at += n
        else:
            val[i] = ctx.ufun('R%d_0' % i)(*(q[at:at + n[0]] + cols)) + ctx.ufun('S%d_0' % i)(*(q[at + n[0]:at + sum(n)] + cols))
            at += sum(n)
    p = ctx.array(q)
    ctx.eq('value', m.result(x, p.copy()), ctx.ufun('M_0')(*(val + cols)))
    ctx.jac('partial', lambda z: m.result(x, z), p, m.partial(x, p.copy()))
    dx = m.derivative(x, p.copy())
    h = ctx.const(1e-5)
    for i in range(ndim):
        def f(s):
            if ndim == 1:
                return m.result(x + s * h, p.copy())
            z = x.copy()
            z[:, i] = z[:, i] + s * h
            return m.result(z, p.copy())
        ctx.eq('derivative to input %d' % i, dx if ndim == 1 else dx[:, i], (f(1) - f(-1)) / (2 * h), tol=1e-4)


for k, spec in ((1, [(0, 1)]), (2, [(0, 2)]), (2, [(1, 1)]), (3, [(1, 2)]), (3, [(2, 1)]), (3, [(0, 1), (2, 2)]), (3, [(0, None), (1, 2)]), (3, [(1, None), (0, 2)]), (4, [(1, 2), (3, 1)]), (4, [(3, 2), (0, None)]), (4, [(2, (1, 2))]),
                (3, [(1, (2, 1)), (2, 2)]), (4, [(0, 1), (1, None), (3, 2)]), (2, [(0, 1), (1, 2)]), (3, [(0, 2), (1, 1), (2, 1)]), (2, [(0, 0)]), (2, [(0, 0), (1, 0)]), (3, [(2, 1), (0, 2)]), (4, [(3, 1), (1, 2)])):
    for ndim in (1, 2):
        for way in ('new', 'copy'):
            add('M05', 'model of %d, %s, %d inputs, %s' % (k, spec, ndim, way), m05m, k, spec, ndim, way)
