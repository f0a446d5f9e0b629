"""M04: bookkeeping of compound models.  Structures are enumerated; parameters, prior limits and data are arbitrary."""
from vc.prove import add
from contracts.catalog import CAT
from contracts.compound import abstract, parse, leaves, build, NPAR, value


def mkchain(ctx, expr, way):
    e = parse(expr)
    AM = abstract(ctx)
    ms, pars = {}, {}

    def mk(c):
        pars[c] = ctx.vec('p' + c, NPAR[c])
        m = AM(c, NPAR[c], params=pars[c].copy(), names=['%s%d' % (c, i) for i in range(NPAR[c])])
        ms[c] = m
        return m
    m = build(ctx, e, mk, way)
    return e, m, ms, pars


def names(e):
    return ['%s%d' % (c, i) for c in leaves(e) for i in range(NPAR[c])]


def prior(ctx, k, tag='l'):
    lo, w = ctx.real('%s%d' % (tag, k)), ctx.real('%sw%d' % (tag, k), pos=True)
    return ctx.cls('UniformPrior')(limits=[lo, lo + w]), lo, w


def finger(ctx, m, x, p):
    """everything a user can see of model m"""
    n = m.npars
    f = dict(n=n, length=m.chainLength(), parameters=m.parameters.copy(), names=[m.getParameterName(k) for k in range(n)],
             value=m.result(x, p.copy()), stdevs=None if m.stdevs is None else m.stdevs.copy())
    lims = []
    for k in range(n):
        try:
            pr = m.getPrior(k)
            lims.append((type(pr).__name__, pr.lowLimit, pr.highLimit))
        except IndexError:
            lims.append(None)
    f['priors'] = lims
    return f


def eqfinger(ctx, what, f, g):
    ctx.same(what + ': number of parameters, constituents', (f['n'], f['length']), (g['n'], g['length']))
    if (f['n'], f['length']) != (g['n'], g['length']):
        return
    ctx.same(what + ': names', f['names'], g['names'])
    ctx.eq(what + ': parameters', f['parameters'], g['parameters'])
    ctx.eq(what + ': value', f['value'], g['value'])
    ctx.same(what + ': standard deviations set', f['stdevs'] is None, g['stdevs'] is None)
    if f['stdevs'] is not None and g['stdevs'] is not None:
        ctx.eq(what + ': standard deviations', f['stdevs'], g['stdevs'])
    ctx.same(what + ': priors', [a and a[0] for a in f['priors']], [a and a[0] for a in g['priors']])
    for k, (a, b) in enumerate(zip(f['priors'], g['priors'])):
        if a and b:
            ctx.eq(what + ': low limit %d' % k, a[1], b[1])
            ctx.eq(what + ': high limit %d' % k, a[2], b[2])


def mutate(ctx, m, how):
    """change m through its public interface"""
    n = m.npars
    if how == 'parameters' and n:
        for k in range(n):
            m.parameters[k] = m.parameters[k] + (k + 1)
    elif how == 'stdevs' and n:
        if m.stdevs is None:
            m.stdevs = ctx.array([ctx.const(k + 1.0) for k in range(n)])
        else:
            m.stdevs[0] = m.stdevs[0] + 1
    elif how == 'setPrior' and n:
        for k in range(n):
            m.setPrior(k, ctx.cls('ExponentialPrior')())
    elif how == 'limits' and n:
        try:
            for k in range(n):
                pr = m.getPrior(k)
                pr.setLimits([ctx.const(-5.0 - k), ctx.const(7.0 + k)])
        except IndexError:
            m.setLimits([-5.0] * n, [7.0] * n)
    elif how == 'append':
        m.addModel(ctx.model('ConstantModel', ndim=m.ndim) if m.ndim == 1 else m.copy())
    elif how == 'names':
        el = m
        while el is not None:
            for k in range(len(el.parNames)):
                el.parNames[k] = 'z%d' % k
            el = el._next


HOW = ['parameters', 'stdevs', 'setPrior', 'limits', 'append', 'names']


def chain(ctx, expr, ways):
    """parameters, names, priors and limits by overall index"""
    way = ctx.choose(ways)
    e, m, ms, pars = mkchain(ctx, expr, way)
    lv = leaves(e)
    n = sum(NPAR[c] for c in lv)
    full = ctx.array([v for c in lv for v in pars[c]])
    ctx.same('number of parameters', [m.npars, m.npchain, m.getNumberOfParameters(), len(m.parameters)], [n] * 4)
    ctx.eq('parameters are those of the constituents', m.parameters, full)
    ctx.same('names', [m.getParameterName(k) for k in range(n)], names(e))
    ctx.same('constituents', m.chainLength(), len(e))
    ctx.raises('name beyond the last', IndexError, lambda: m.getParameterName(n))
    ctx.same('no priors yet', (bool(m.hasPriors()), bool(m.hasLimits())), (n == 0, n == 0))
    u = ctx.vec('u', n, lo=0.0, hi=1.0)
    mode = ctx.choose(['setPrior', 'setLimits', 'low only', 'high only', 'partly'])
    lo, w = [ctx.real('l%d' % k) for k in range(n)], [ctx.real('w%d' % k, pos=True) for k in range(n)]
    hi = [a + b for a, b in zip(lo, w)]
    if mode == 'setPrior':
        pr = [ctx.cls('UniformPrior')(limits=[a, b]) for a, b in zip(lo, hi)]
        for k in range(n):
            m.setPrior(k, pr[k])
        ctx.same('prior by index', [m.getPrior(k) is pr[k] for k in range(n)], [True] * n)
        ctx.raises('prior beyond the last', IndexError, lambda: m.getPrior(n))
        ctx.raises('setting a prior beyond the last', IndexError, lambda: m.setPrior(n, pr[0] if n else None))
    elif mode == 'setLimits':
        m.setLimits(lo, hi)
    elif mode == 'low only':
        m.setLimits(lowLimits=lo)
    elif mode == 'high only':
        m.setLimits(highLimits=hi)
    else:
        j = NPAR[lv[0]]
        if j == n:
            return
        m.setLimits(lo[:j], hi[:j])
        for k in range(j):
            ctx.eq('low limit %d' % k, m.getPrior(k).lowLimit, lo[k])
            ctx.eq('high limit %d' % k, m.getPrior(k).highLimit, hi[k])
        ctx.raises('no prior for the others', IndexError, lambda: m.getPrior(j))
        ctx.same('some have no priors', bool(m.hasPriors()), False)
        ctx.same('not all have limits', bool(m.hasLimits()), False)
        ctx.same('the first have limits', bool(m.hasLimits(ctx.np.arange(j))), True)
        ctx.same('the next has not', bool(m.hasLimits(ctx.np.arange(j + 1))), False)
        return
    ll, hh = m.getLimits()
    for k in range(n):
        if mode != 'high only':
            ctx.eq('low limit %d' % k, ll[k], lo[k])
        else:
            ctx.same('no low limit %d' % k, bool(m.getPrior(k).hasLowLimit()), False)
        if mode != 'low only':
            ctx.eq('high limit %d' % k, hh[k], hi[k])
        else:
            ctx.same('no high limit %d' % k, bool(m.getPrior(k).hasHighLimit()), False)
    ctx.same('has limits', bool(m.hasLimits()), True)
    ctx.same('has limits (selected)', [bool(m.hasLimits(ctx.np.arange(k, n))) for k in range(n)], [True] * n)
    ctx.same('has bound priors', bool(m.hasPriors()), mode in ('setPrior', 'setLimits') or n == 0)
    ctx.same('has priors', bool(m.hasPriors(isBound=False)), True)
    if mode in ('setPrior', 'setLimits'):
        ctx.eq('unit to domain', m.unit2Domain(u.copy()), ctx.array([a + b * c for a, b, c in zip(lo, w, u)]))
        v = ctx.array([a + b * c for a, b, c in zip(lo, w, u)])
        ctx.eq('domain to unit', m.domain2Unit(v), u)
        ctx.eq('derivative of domain to unit', m.partialDomain2Unit(v), ctx.array([1 / b for b in w]))
        for k in range(n):
            ctx.eq('unit to domain of parameter %d' % k, m.unit2Domain(u[k], kpar=k), lo[k] + w[k] * u[k])
            ctx.eq('domain to unit of parameter %d' % k, m.domain2Unit(v[k], kpar=k), u[k])


def isolate(ctx, expr, k):
    """constituent k taken out"""
    e, m, ms, pars = mkchain(ctx, expr, 'methods')
    n = m.npars
    pr = [prior(ctx, i) for i in range(n)]
    for i in range(n):
        m.setPrior(i, pr[i][0])
    m.stdevs = ctx.vec('s', n)
    x, p = ctx.data('x'), ctx.vec('q', n)
    before = finger(ctx, m, x, p)
    item = e[k] if k == 0 else e[k][1]
    at = sum(NPAR[c] for j in range(k) for c in leaves(e[j] if j == 0 else e[j][1]))
    lv = leaves(item)
    nk = sum(NPAR[c] for c in lv)
    c = m.isolateModel(k)
    eqfinger(ctx, 'the chain is left as it was', finger(ctx, m, x, p), before)
    ctx.same('stand alone', (c.npars, c.npchain, c.chainLength(), c.npbase), (nk, nk, 1, nk))
    ctx.eq('its parameters', c.parameters, m.parameters[at:at + nk])
    ctx.eq('its standard deviations', c.stdevs, m.stdevs[at:at + nk])
    ctx.same('its names', [c.getParameterName(i) for i in range(nk)], names(e)[at:at + nk])
    q = ctx.vec('r', nk)
    loc, j = {}, 0
    for l in lv:
        loc[l] = q[j:j + NPAR[l]]
        j += NPAR[l]
    ctx.eq('its value', c.result(x, q.copy()), value(item, x, loc, ms))
    for i in range(nk):
        ctx.eq('its low limit %d' % i, c.getPrior(i).lowLimit, pr[at + i][1])
        ctx.eq('its high limit %d' % i, c.getPrior(i).highLimit, pr[at + i][1] + pr[at + i][2])
    how = ctx.choose(HOW)
    if ctx.choose([0, 1]):
        mutate(ctx, c, how)
        eqfinger(ctx, how + ' of the constituent changed, chain', finger(ctx, m, x, p), before)
    else:
        f = finger(ctx, c, x, q)
        mutate(ctx, m, how)
        eqfinger(ctx, how + ' of the chain changed, constituent', finger(ctx, c, x, q), f)


def copies(ctx, mk, x=None):
    """a copy equals its original and shares nothing with it"""
    m = mk()
    n = m.npars
    withpr = ctx.choose([True, False])
    if withpr:
        for i in range(n):
            m.setPrior(i, prior(ctx, i)[0])
        if n:
            m.stdevs = ctx.vec('s', n)
    p = ctx.mvec(m, 'q') if x is None else x[1](m)
    xx = ctx.data('x') if x is None else x[0](p)
    before = finger(ctx, m, xx, p)
    c = m.copy()
    ctx.same('same class', type(c) is type(m), True)
    eqfinger(ctx, 'original after copying', finger(ctx, m, xx, p), before)
    eqfinger(ctx, 'copy', finger(ctx, c, xx, p), before)
    how = ctx.choose([h for h in HOW if h != 'limits'] + ['limits'])
    if ctx.choose([0, 1]):
        mutate(ctx, c, how)
        eqfinger(ctx, how + ' of the copy changed, original', finger(ctx, m, xx, p), before)
    else:
        mutate(ctx, m, how)
        eqfinger(ctx, how + ' of the original changed, copy', finger(ctx, c, xx, p), before)


def operators(ctx, op, left, right):
    """A op B leaves A and B alone, and the new model shares nothing with them"""
    AM = abstract(ctx)

    def mk(s, tag):
        if s == 'single':
            m = AM('A' + tag, 2, params=ctx.vec('a' + tag, 2))
        elif s == 'empty':
            m = AM('E' + tag, 0)
        elif s == 'fixed':
            m = AM('F' + tag, 3, fixed={0: 1.0, 2: AM('R' + tag, 1, params=ctx.vec('r' + tag, 1))}, params=ctx.vec('f' + tag, 3))
        elif s == 'chain':
            m = AM('B' + tag, 1, params=ctx.vec('b' + tag, 1))
            m += AM('C' + tag, 2, params=ctx.vec('c' + tag, 2))
        else:
            m = ctx.model('BracketModel', AM('D' + tag, 2, params=ctx.vec('d' + tag, 2)))
            m *= AM('G' + tag, 1, params=ctx.vec('g' + tag, 1))
        for i in range(m.npars):
            m.setPrior(i, prior(ctx, i, 'l' + tag)[0])
        return m
    a, b = mk(left, 'L'), mk(right, 'R')
    x = ctx.data('x')
    pa, pb = ctx.vec('qa', a.npars), ctx.vec('qb', b.npars)
    fa, fb = finger(ctx, a, x, pa), finger(ctx, b, x, pb)
    m = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b if op == '/' else a | b
    eqfinger(ctx, 'left operand', finger(ctx, a, x, pa), fa)
    eqfinger(ctx, 'right operand', finger(ctx, b, x, pb), fb)
    n = a.npars + b.npars
    ctx.same('number of parameters', m.npars, n)
    ctx.eq('parameters', m.parameters, ctx.array(list(fa['parameters']) + list(fb['parameters'])))
    lim = fa['priors'] + fb['priors']
    for k in range(n):
        ctx.eq('low limit %d' % k, m.getPrior(k).lowLimit, lim[k][1])
        ctx.eq('high limit %d' % k, m.getPrior(k).highLimit, lim[k][2])
    how, who = ctx.choose(HOW), ctx.choose(['result', 'left', 'right'])
    pm = ctx.array(list(pa) + list(pb))
    fm = finger(ctx, m, x, pm)
    if who == 'result':
        mutate(ctx, m, how)
        eqfinger(ctx, how + ' of the result changed, left', finger(ctx, a, x, pa), fa)
        eqfinger(ctx, how + ' of the result changed, right', finger(ctx, b, x, pb), fb)
    else:
        mutate(ctx, a if who == 'left' else b, how)
        eqfinger(ctx, how + ' of an operand changed, result', finger(ctx, m, x, pm), fm)


WAYS = ['methods', 'operators']
EXPR = ['A', 'E', 'A+B', 'A*E', 'E+A', 'A|B', 'A+E+B', 'A+B*C', '(A+B)*C', 'A*(B+C)', 'A*(B|C)-D', 'A+(B-(C/D))', '(A-B)*(C-D)|F', 'A+(E*B)+F', 'F-B|C*D', '((A+B)*C)-D', 'A-(E+D)*B']
for ex in EXPR:
    add('M04', 'index ' + ex, chain, ex, WAYS)
    for k in range(len(parse(ex))):
        add('M04', 'isolate %d of %s' % (k, ex), isolate, ex, k)
    for w in WAYS:
        add('M04', 'copy of %s built with %s' % (ex, w), lambda ctx, ex=ex, w=w: copies(ctx, lambda: mkchain(ctx, ex, w)[1]))
for nm, c in CAT.items():
    if c.copyable and not nm.endswith('uniform'):         # (the same class with other knots)
        add('M04', 'copy of ' + nm, lambda ctx, c=c: copies(ctx, lambda: c.build(ctx), (lambda p, c=c: c.x(ctx, p) if not c.name.startswith('Basic') else ctx.data('x', lo=0.6, hi=0.9, special=()), lambda m, c=c: c.params(ctx, m, 'q'))), n=c.n)
        if c.fixable and not nm.startswith('BSplines'):
            add('M04', 'copy of fixed ' + nm, lambda ctx, c=c: copies(ctx, lambda: c.build(ctx, {'fixed': {0: 0.5}}),
                                                                     (lambda p, c=c: ctx.data('x', k=c.k, lo=0.6, hi=0.9, special=()), lambda m: ctx.vec('q', m.npars, lo=0.1, hi=0.4, special=()))), n=c.n)


def constant(ctx):
    p = ctx.model('PolynomialModel', 1, params=ctx.vec('c', 2))
    return ctx.model('ConstantModel', fixedModel=p)


def constshare(ctx):
    m = constant(ctx)
    c = m.copy()
    x = ctx.data('x')
    y = m.result(x)
    c.fixedModel.parameters[0] = c.fixedModel.parameters[0] + 1
    c.fixedModel.parameters[1] = ctx.const(3.0)
    ctx.eq('original after the copy changed', m.result(x), y)
    c = m.copy()
    m.fixedModel.parameters[1] = ctx.const(4.0)
    ctx.eq('copy after the original changed', c.result(x), y)


add('M04', 'copy of ConstantModel', lambda ctx: copies(ctx, lambda: constant(ctx)))
add('M04', 'fixed model of ConstantModel', constshare)


def fixshare(ctx):
    """the models that replace parameters"""
    AM = abstract(ctx)
    r = ctx.vec('r', 2)
    m = AM('M', 3, fixed={1: AM('R', 2, params=r.copy())})
    c = m.copy()
    ctx.same('own copy of the model', c.fixed[1] is m.fixed[1], False)
    c.fixed[1].parameters[0] = ctx.const(9.0)
    ctx.eq('parameters of the original', m.fixed[1].parameters, r)
    ctx.same('own dictionary', c.fixed is m.fixed, False)
    c.fixed[1].setLimits([0.0, 0.0], [1.0, 1.0])
    ctx.same('priors of the original', m.fixed[1].priors is None, True)


add('M04', 'models replacing parameters', fixshare)
for op in '+-*/|':
    for l, r in (('single', 'single'), ('single', 'chain'), ('chain', 'single'), ('chain', 'chain'), ('bracket', 'chain'), ('single', 'bracket'), ('fixed', 'single'), ('chain', 'fixed'), ('empty', 'chain')):
        add('M04', '%s %s %s' % (l, op, r), operators, op, l, r)
