"""S03: bookkeeping of nested sampling.  One update of the evidence is proved from an arbitrary state (so for every history by
induction); whole calls of sample() follow every order of the walkers with the exploration replaced by its contract (S01): the
walkers asked for become arbitrary ones not below the threshold.  Bounded: whole runs with the real engines."""
import math
import sys as _sys
from vc.prove import add
from contracts.compound import abstract
from contracts.iterfit import Swap, Proxy


def blank(ctx, n, p=2, hyper=True, name='NestedSampler'):
    """a sampler with n walkers of arbitrary contents"""
    np = ctx.np
    A = abstract(ctx)
    m = A('f', p)
    for k in range(p):
        m.setPrior(k, ctx.cls('UniformPrior')(limits=[-10.0, 10.0]))
    P = ctx.cls('ClassicProblem')(model=m, xdata=np.array([0.0, 1.0]), ydata=np.array([1.0, 2.0]))
    N = ctx.cls(name)
    ns = N.__new__(N)
    st = object.__setattr__
    st(ns, 'problem', P)
    np_ = p + (1 if hyper else 0)
    wl = ctx.cls('WalkerList')(problem=P, ensemble=n, allpars=np.zeros(np_), fitIndex=np.arange(p))
    for i, w in enumerate(wl):
        w.allpars = ctx.array([ctx.real('w%d_%d' % (i, k)) for k in range(np_)])
        st(w, 'logL', ctx.real('L%d' % i))
        st(w, 'id', 10 + i)
    st(ns, 'walkers', wl)
    st(ns, 'samples', ctx.cls('SampleList')(m, 0, ndata=2))
    return ns


def evidence(ctx, n, worst, prior):
    ns = blank(ctx, n)
    st = object.__setattr__
    np = ctx.np
    Z0, H0, lw = ctx.real('logZ'), ctx.real('info'), ctx.real('logWidth')
    for k, v in (('logZ', Z0), ('info', H0), ('logWidth', lw), ('logdZ', ctx.real('x'))):
        st(ns, k, v)
    if prior:
        for i, w in enumerate(ns.walkers):
            st(w, 'logPrior', ctx.real('P%d' % i))
    st(ns, 'lowLhood', ns.walkers[worst - 1].logL)
    was = [(w, w.id, w.logL, w.allpars.copy()) for w in ns.walkers]
    old = ns.walkers[n - 1].toSample(ctx.real('q'))
    ns.samples.add(old)
    ns.updateEvidence(worst)
    W, M, last = np.exp(Z0), (H0 + Z0) * np.exp(Z0), None
    for k in range(worst):
        L = was[k][2] + (was[k][0].logPrior if prior else 0)
        last = lw + L
        W, M = W + np.exp(last), M + np.exp(last) * L
        lw = lw - ctx.const(1.0) / (n - k)
        s = ns.samples[k + 1]
        ctx.eq('weight of the sample', s.logW, last)
        ctx.eq('log likelihood of the sample', s.logL, L)
        ctx.eq('parameters of the sample', s.allpars, was[k][3])
        ctx.eq('model parameters of the sample', s.parameters, was[k][3][:2])
        ctx.same('origin of the sample', s.parent, was[k][1])
        ctx.same('number of the sample', s.id, k + 1)
        ctx.ok('own parameters', s.parameters is not was[k][0].allpars)
    ctx.eq('evidence is the sum of the weights', np.exp(ns.logZ), W)
    ctx.eq('information is the mean log likelihood minus log evidence', (ns.info + ns.logZ) * np.exp(ns.logZ), M)
    ctx.eq('width left', ns.logWidth, lw)
    ctx.eq('last contribution', ns.logdZ, last - ns.logZ)
    ctx.same('number of samples', len(ns.samples), worst + 1)
    ctx.ok('sample booked before', ns.samples[0] is old)
    for (w, id, L, p), v in zip(was, ns.walkers):
        ctx.ok('walkers in place', w is v)
        ctx.eq('walkers unchanged', w.allpars, p)
        ctx.eq('walkers unchanged', w.logL, L)


class Start(object):
    """start engine: any walker"""
    def __init__(self, R):
        self.R = R

    def execute(self, kw, low):
        w = self.walkers[kw]
        self.R.arbitrary(w, None)


class Run(object):
    """a run of sample() over arbitrary walkers"""
    def __init__(self, ctx, n, discard, iters, hyper, maxsize=None, cls='NestedSampler', p=1):
        self.ctx, self.n, self.p = ctx, n, p
        A = abstract(ctx)
        m = self.m = A('f', p)
        for k in range(p):
            m.setPrior(k, ctx.cls('UniformPrior')(limits=[-10.0, 10.0]))
        np = ctx.np
        R = self

        class Explorer(object):
            def __init__(self, ns, threads=False):
                ctx.ok('the sampler explores its own walkers', ns is R.ns)

            def explore(self, wl, low, iteration):
                R.explore(list(wl), low)
        self.Explorer = Explorer
        self.live = []
        self.low, self.first = None, True
        self.k = 0
        N = ctx.cls(cls)
        self.ns = ns = N(xdata=np.array([0.0, 1.0]), model=m, ydata=np.array([1.0, 2.0]), ensemble=n, discard=discard, engines=[], verbose=0,
                         limits=[0.5, 2.0] if hyper else None, maxsize=maxsize)
        ns.initialEngine = Start(self)
        ns.minimumIterations = iters
        ns.maxIterations = iters - 1
        ns.rng = ctx.rng()
        self.discard, self.iters = discard, iters

    def arbitrary(self, w, low):
        ctx = self.ctx
        self.k += 1
        w.allpars = ctx.array([ctx.real('q%d_%d' % (self.k, j), lo=-10.0, hi=10.0) if j < self.p else ctx.real('h%d' % self.k, lo=0.5, hi=2.0) for j in range(len(w.allpars))])
        L = ctx.real('L%d' % self.k) if low is None else low + ctx.real('g%d' % self.k, lo=0.0, hi=None if ctx.sym else 3.0)
        object.__setattr__(w, 'logL', L)

    def explore(self, which, low):
        ctx, ns = self.ctx, self.ns
        if self.first:
            self.first = False
            ctx.same('all walkers are explored at the start', sorted(which), list(range(self.n)))
            for i in which:
                self.arbitrary(ns.walkers[i], None)
        else:
            d = self.discard
            ctx.same('the discarded ones are replaced', sorted(which), list(range(d)))
            gone = self.live[:]                     # walkers before the replacement
            # the last d samples are the d worst
            booked = ns.samples[-d:] if ns.maxsize is None else None
            rest = [w.logL for w in ns.walkers[d:]]
            for r in rest:
                ctx.le('those that stay are not below the threshold', low, r)
            if booked:
                for s in booked:
                    ctx.le('the discarded are the lowest', s.logL, low)
                ctx.eq('threshold is that of the best discarded', booked[-1].logL, low)
            if self.low is not None:
                ctx.le('threshold never goes down', self.low, low)
            self.low = low
            for i in which:
                w = ns.walkers[i]
                ctx.ok('a replacement starts from one that stays', any(w.parent == v.id for v in ns.walkers[d:]))
                src = [v for v in ns.walkers[d:] if w.parent == v.id]
                ctx.ok('a replacement is a copy', all(w is not v for v in ns.walkers[d:]))
                if src:
                    ctx.eq('a replacement starts from one that stays', w.allpars, src[0].allpars)
                    ctx.eq('a replacement starts from one that stays', w.logL, src[0].logL)
                c = w.copy()
                self.arbitrary(c, low)
                ns.walkers.setWalker(c, i)
        self.live = list(ns.walkers)


def whole(ctx, n, discard, iters, hyper, maxsize=None):
    R = Run(ctx, n, discard, iters, hyper, maxsize)
    ns, np = R.ns, ctx.np
    sl = ns.samples
    m = ctx.mod('NestedSampler')
    old, osys = m.Explorer, m.sys
    m.Explorer = R.Explorer
    huge = _sys.float_info.max
    if ctx.sym:                                     # the huge number that stands for infinity: arbitrary; the stopping rule has its own contract
        huge = ctx.real('huge')
        m.sys = Proxy(osys, float_info=Proxy(_sys.float_info, max=huge))
        sl.stdevs = np.array([1.0])                 # averages and deviations have their own contracts
        object.__setattr__(ns, 'nextIteration', lambda: ns.iteration < iters)
    try:
        ev = ns.sample()
    finally:
        m.Explorer, m.sys = old, osys
    ctx.ok('same list', ns.samples is sl)
    nn = iters * discard + n
    ctx.same('number of samples', len(sl), nn if maxsize is None else len(sl))
    if maxsize is not None:
        ctx.ok('thinned', len(sl) <= maxsize + n)
    for i in range(1, len(sl)):
        ctx.le('discarded values never decrease', sl[i - 1].logL, sl[i].logL)
    ctx.eq('weights sum to one', sum(np.exp(s.logW) for s in sl), 1)
    ctx.eq('evidence of the samples', sl.logZ, ns.logZ)
    ctx.eq('information of the samples', sl.info, ns.info)
    ctx.eq('evidence', ev, ns.logZ / np.log(ctx.const(10.0)))
    ctx.eq('evidence', sl.evidence, ns.logZ / np.log(ctx.const(10.0)))
    if maxsize is None:
        lw, W, M = np.log(1 - np.exp(ctx.const(-1.0) / n)), np.exp(-huge), np.exp(-huge) * -huge
        k = 0
        ws = []
        for it in range(iters + 1):
            for j in range(discard if it < iters else n):
                ws.append(np.exp(lw + sl[k].logL))
                W, M = W + ws[-1], M + ws[-1] * sl[k].logL
                lw = lw - ctx.const(1.0) / (n - j)
                k += 1
        ctx.eq('evidence is the sum of the weights', np.exp(ns.logZ), W)
        ctx.eq('information is the mean log likelihood minus log evidence', (ns.info + ns.logZ) * np.exp(ns.logZ), M)
        tot = sum(ws)
        for s, w in zip(sl, ws):
            ctx.eq('weights are those booked', np.exp(s.logW) * tot, w)
    ctx.eq('parameters are the averages', R.m.parameters, sum(np.exp(s.logW) * s.parameters for s in sl))


def stop(ctx, worst, maxit):
    ns = blank(ctx, 4)
    st = object.__setattr__
    it = ctx.int(0, 12)
    for k, v in (('minimumIterations', 3), ('maxIterations', maxit), ('tolerance', -12), ('end', 2.0), ('discard', worst), ('iteration', it),
                 ('logdZ', ctx.real('logdZ') * 10), ('info', ctx.real('info'))):
        st(ns, k, v)
    go = ns.nextIteration()
    if bool(it < 3):
        ctx.ok('at least the minimum number of iterations', go)
    else:
        more = not bool(ns.logdZ < -12) and not bool(it > 2.0 * 4 * ns.info / worst) and not (maxit is not None and bool(it > maxit))
        ctx.ok('goes on as long as evidence comes in', go == more)


def fitlist(ctx, p, dist, lims, keep, acc=False):
    np = ctx.np
    A = abstract(ctx)
    m = A('f', p)
    for k in range(p):
        m.setPrior(k, ctx.cls('UniformPrior')(limits=[-10.0, 10.0]))
    vals = {k: ctx.real('keep%d' % k) for k in keep}
    ns = ctx.cls('NestedSampler')(xdata=np.array([0.0, 1.0]), model=m, ydata=np.array([1.0, 2.0]), accuracy=0.5 if acc else None, engines=[], verbose=0, ensemble=3,
                                  distribution=dist, limits=lims)
    if not keep:
        got, pars = ns.makeFitlist()
    else:
        got, pars = ns.makeFitlist(keep=vals)
    nh = ns.distribution.nphypar
    n = p + nh
    free = [not h.isFixed and h.isBound() for h in ns.distribution.hyperpar]
    fixed = {k % n for k in keep}
    want = [k for k in range(n) if k not in fixed and (k < p or free[k - p])]
    ctx.same('fitted parameters', sorted(k % n for k in got), want)
    ctx.ok('hyper parameters count from the end', all(0 <= k < p or -nh <= k < 0 for k in got))
    ctx.same('number of parameters', len(pars), n)
    for k in keep:
        ctx.eq('kept values', pars[k], vals[k])
    for j in range(nh):
        if not free[j] and (p + j) not in fixed:
            ctx.eq('fixed hyper parameters', pars[p + j], 0 if acc and j == 0 else ns.distribution.hypar[j])


# ------------------------------------------------------------------------------------------------ samples
def samples(ctx, n, p=2, hyper=0, nuis=0, normal=True, prior=None):
    np = ctx.np
    A = abstract(ctx)
    m = A('f', p)
    if prior is not None:
        for k in range(p):
            m.setPrior(k, prior())
    sl = ctx.cls('SampleList')(m, 0)
    w = [ctx.real('weight%d' % i, pos=True) for i in range(n)]
    tot = sum(w)
    S = ctx.cls('Sample')
    for i in range(n):
        s = S(40 + i, -1, i, m, parameters=ctx.array([ctx.real('p%d_%d' % (i, k)) for k in range(p)]), fitIndex=np.arange(p))
        if hyper:
            object.__setattr__(s, 'hyper', ctx.array([ctx.real('h%d_%d' % (i, k)) for k in range(hyper)]))
        if nuis:
            object.__setattr__(s, 'nuisance', ctx.array([ctx.real('n%d_%d' % (i, k)) for k in range(nuis)]))
        object.__setattr__(s, 'logL', ctx.real('L%d' % i))
        object.__setattr__(s, 'logW', np.log(w[i] / tot) if normal else np.log(w[i]))
        sl.append(s)
    return sl, [v / tot for v in w] if normal else w


def mean(ctx, w, v, tag, got, dev):
    mu = sum(a * b for a, b in zip(w, v))
    ctx.eq('average of %s' % tag, got, mu)
    var = sum(a * (b - mu) * (b - mu) for a, b in zip(w, v))
    ctx.le('deviation of %s is not negative' % tag, 0, dev)
    ctx.eq('deviation of %s' % tag, dev * dev, var, tol=1e-7)


def lemma(ctx, w, v):
    """the mean of the squares is not below the square of the mean"""
    if ctx.sym:
        mu = sum(a * b for a, b in zip(w, v))
        ex = sum(a * b * b for a, b in zip(w, v)) - mu * mu
        var = sum(a * (b - mu) * (b - mu) for a, b in zip(w, v))
        ctx.eq('mean square minus square of the mean', ex, var)
        ctx.le('variance is not negative', 0, var)
        ctx.assume(ex >= 0)


def averages(ctx, n, p, hyper, nuis):
    sl, w = samples(ctx, n, p, hyper, nuis)
    np = ctx.np

    def check():
        for name, m in (('parameters', p), ('hyper', hyper), ('nuisance', nuis)):
            for k in range(m):
                lemma(ctx, w, [getattr(q, name)[k] for q in sl])
        a, s = sl.parameters, sl.stdevs
        s2 = sl.standardDeviations
        for k in range(p):
            mean(ctx, w, [q.parameters[k] for q in sl], 'the parameters', a[k], s[k])
            ctx.eq('same by another name', s2[k], s[k])
        if hyper:
            a, s = sl.hypars, sl.stdevHypars
            for k in range(hyper):
                mean(ctx, w, [q.hyper[k] for q in sl], 'the hyper parameters', a[k], s[k])
            ctx.eq('scale', sl.scale, a[0])
            ctx.eq('deviation of the scale', sl.stdevScale, s[0])
            ctx.eq('same by another name', sl.stdevHypar, s)
        if nuis:
            a, s = sl.nuisance, sl.stdevNuis
            for k in range(nuis):
                mean(ctx, w, [q.nuisance[k] for q in sl], 'the nuisance parameters', a[k], s[k])
    check()
    q = sl[0]
    q.parameters = ctx.array([ctx.real('new%d' % k) for k in range(p)])
    if hyper:
        object.__setattr__(q, 'hyper', ctx.array([ctx.real('newh%d' % k) for k in range(hyper)]))
    if nuis:
        object.__setattr__(q, 'nuisance', ctx.array([ctx.real('newn%d' % k) for k in range(nuis)]))
    check()


def band(ctx, n):
    sl, w = samples(ctx, n, 2)
    x = ctx.np.array([0.5, 1.5])
    y = [s.model.result(x, s.parameters) for s in sl]
    for k in range(2):
        lemma(ctx, w, [v[k] for v in y])
    a = sl.average(x)
    e = sl.monteCarloError(x)
    for k in range(2):
        mean(ctx, w, [v[k] for v in y], 'the results', a[k], e[k])
    x = ctx.np.array([2.5, 3.5])
    y = [s.model.result(x, s.parameters) for s in sl]
    for k in range(2):
        lemma(ctx, w, [v[k] for v in y])
    e = sl.monteCarloError(x)
    a = sl.average(x)
    for k in range(2):
        mean(ctx, w, [v[k] for v in y], 'the results at other places', a[k], e[k])


def median(ctx, n):
    sl, w = samples(ctx, n, 2, 1)
    for r in range(2):
        k = sl.medianIndex
        ctx.ok('median inside the list', 0 <= k < n)
        ctx.le('at least half of the weight up to the median', 0.5, sum(w[:k + 1]), tol=1e-9)
        if k > 0:
            ctx.le('at most half of the weight before the median', sum(w[:k]), 0.5, tol=1e-9)
        ctx.eq('parameters at the median', sl.medianParameters, sl[k].parameters)
        ctx.eq('scale at the median', sl.medianScale, sl[k].hyper[0])
        k = sl.modusIndex
        for j in range(n):
            ctx.le('mode has the largest weight', w[j], w[k], tol=1e-12)
        ctx.eq('parameters at the mode', sl.modusParameters, sl[k].parameters)
        ctx.eq('scale at the mode', sl.modusScale, sl[k].hyper[0])
        ctx.eq('parameters of the last', sl.maxLikelihoodParameters, sl[n - 1].parameters)
        ctx.eq('scale of the last', sl.maxLikelihoodScale, sl[n - 1].hyper[0])
        # the list changes
        w = w[1:] + [w[0]]
        first = list.pop(sl, 0)
        sl.append(first)


def normalize(ctx, n):
    sl, w = samples(ctx, n, 1, normal=False)
    np = ctx.np
    if not ctx.sym and ctx.choose([0, 1]):
        for s in sl:
            object.__setattr__(s, 'logW', s.logW + ctx.choose([-2000.0, 3000.0, 0.0]) if 0 else s.logW - 2000.0)
    was = [(s, s.logL, s.parameters) for s in sl]
    sl.normalize()
    ctx.same('length', len(sl), n)
    tot = sum(w)
    for s, (t, L, p), v in zip(sl, was, w):
        ctx.ok('same samples', s is t)
        ctx.eq('weight', np.exp(s.logW) * tot, v)
        ctx.eq('weight', s.weight * tot, v)
        ctx.eq('log likelihood untouched', s.logL, L)
    ctx.eq('weights sum to one', sum(sl.getWeightEvolution()), 1)
    ctx.ok('marked', sl.normalized)
    new = sl[0].copy()
    sl.add(new)
    ctx.ok('marked', not sl.normalized)


def weed(ctx, n, size):
    sl, w = samples(ctx, n, 1, normal=False)
    was = [(s, s.logW, s.logL) for s in sl]
    sl.weed(None)
    ctx.same('no limit', len(sl), n)
    sl.weed(size)
    ctx.same('length', len(sl), min(n, size))
    a = [i for i, t in enumerate(was) if any(s is t[0] for s in sl)]
    ctx.ok('a stretch of the list stays', a == list(range(a[0], a[0] + min(n, size))) and all(sl[j] is was[a[j]][0] for j in range(len(sl))))
    for s, lw, L in was:
        ctx.eq('samples unchanged', s.logW, lw)
        ctx.eq('samples unchanged', s.logL, L)
    # one by one, the end with the lesser weight goes
    lo, hi = 0, n
    while hi - lo > size:
        if bool(w[lo] < w[hi - 1]):
            lo += 1
        else:
            hi -= 1
    ctx.same('the end with the lesser weight goes', a[0], lo)


def evolutions(ctx, n):
    sl, w = samples(ctx, n, 2, 1)
    np = ctx.np
    for k in range(n):
        s = sl[k]
        ctx.eq('parameters', sl.getParameterEvolution()[k], s.parameters)
        ctx.eq('one parameter', sl.getParameterEvolution(1)[k], s.parameters[1])
        ctx.eq('scales', sl.getScaleEvolution()[k], s.hyper)
        ctx.eq('log likelihoods', sl.getLogLikelihoodEvolution()[k], s.logL)
        ctx.eq('log weights', sl.getLogWeightEvolution()[k], s.logW)
        ctx.eq('weights', sl.getWeightEvolution()[k], w[k])
        ctx.eq('weight', s.weight, w[k])
        a, b = sl.getParAndWgtEvolution()
        ctx.eq('parameters and weights', a[k], s.parameters)
        ctx.eq('parameters and weights', b[k], w[k])
        ctx.same('numbers', int(sl.getGeneration()[k]), s.id)
        ctx.same('parents', int(sl.getParentEvolution()[k]), s.parent)
        ctx.same('starts', int(sl.getStartEvolution()[k]), s.start)
        ctx.same('number of parameters', int(sl.getNumberOfParametersEvolution()[k]), 2)
    low, klo = sl.getLowLogL()
    ctx.eq('lowest', low, sl[klo].logL)
    for s in sl:
        ctx.le('lowest', low, s.logL)


for n, worst in ((1, 1), (2, 1), (4, 1), (3, 2), (3, 3)):
    for prior in (False, True):
        add('S03', 'evidence of %d out of %d%s' % (worst, n, ' with priors' if prior else ''), evidence, n, worst, prior)
for n, d, it, hyper in ((2, 1, 1, False), (2, 1, 1, True), (2, 1, 2, False)):
    add('S03', 'sample %d walkers %d discarded %d iterations%s' % (n, d, it, ' scale' if hyper else ''), whole, n, d, it, hyper, mode='unrolled', timeout=280)
add('S03', 'sample thinned', whole, 2, 1, 2, False, 2, mode='unrolled', timeout=280)
for n, d, it, hyper in ((5, 1, 20, True), (6, 3, 10, False), (10, 2, 40, True)):
    add('S03', 'sample long %d %d' % (n, d), whole, n, d, it, hyper, mode='bounded')
add('S03', 'sample long thinned', whole, 5, 1, 20, False, 8, mode='bounded')
for worst, maxit in ((1, None), (2, 5)):
    add('S03', 'stopping rule %d %s' % (worst, maxit), stop, worst, maxit)
for p, dist, lims, keeps in ((2, 'gauss', None, ((), (0,), (1, 0), (-1,), (2,), (1, -1))), (2, 'gauss', [0.5, 2.0], ((), (0,), (-1,), (0, 2), (0, 1))),
                             (3, 'exponential', None, ((), (1,), (-1,), (-2,), (2, 4))), (2, 'exponential', [[0.5, 1.0], [2.0, 3.0]], ((), (0,), (2,), (-1,), (1, -2))),
                             (1, 'exponential', [0.5, 2.0], ((), (0,), (-2,), (-1,))), (2, 'poisson', None, ((), (1,)))):
    for keep in keeps:
        add('S03', 'fitted %s %d %s keep %s' % (dist, p, 'limits' if lims else 'fixed', list(keep)), fitlist, p, dist, lims, keep)
add('S03', 'fitted gauss accuracy', fitlist, 2, 'gauss', None, (), True)
add('S03', 'fitted gauss accuracy keep', fitlist, 2, 'gauss', None, (1,), True)
for n in (1, 2, 3):
    add('S03', 'averages %d' % n, averages, n, 2, 0, 0)
    add('S03', 'averages with hyper parameters %d' % n, averages, n, 1, 2, 0)
    add('S03', 'averages with nuisance parameters %d' % n, averages, n, 1, 1, 2)
    add('S03', 'band %d' % n, band, n)
for n in (1, 2, 3, 4):
    add('S03', 'median and mode %d' % n, median, n)
    add('S03', 'normalise %d' % n, normalize, n)
    add('S03', 'evolutions %d' % n, evolutions, n)
for n, s in ((3, 5), (3, 3), (3, 2), (4, 1), (5, 2)):
    add('S03', 'thin %d to %d' % (n, s), weed, n, s)


# ------------------------------------------------------------------------------------------------ real runs
def audited(ctx, ns):
    """every booking and every replacement of a real run is watched"""
    log = []
    upd, wal = ns.updateEvidence, ns.updateWalkers
    st = object.__setattr__
    fresh = dict(hist=[])

    def updateEvidence(worst):
        L = [w.logL for w in ns.walkers]
        ctx.ok('booked in order', all(L[i] <= min(L[i:]) for i in range(worst)))
        n0 = len(ns.samples)
        upd(worst)
        ctx.same('one sample for each booked walker', len(ns.samples), n0 + worst)
        for i in range(worst):
            s = ns.samples[n0 + i]
            log.append((L[i], s.logW))
            ctx.eq('log likelihood booked', s.logL, L[i])
            ctx.eq('parameters booked', s.allpars, ns.walkers[i].allpars)

    def updateWalkers(explorer, worst):
        low = ns.lowLhood
        dead = ns.walkers[:worst]
        wal(explorer, worst)
        if not dynamic:
            ctx.ok('discarded walkers are gone', not any(w is d for w in ns.walkers for d in dead))
        ctx.same('size of the ensemble', len(ns.walkers), n)
        for w in ns.walkers:
            ctx.le('walkers not below the threshold', low, w.logL, tol=0)
            err = ns.distribution.logLikelihood(w.problem, w.allpars)
            ctx.eq('log likelihood of a walker', w.logL, err)
    st(ns, 'updateEvidence', updateEvidence)
    st(ns, 'updateWalkers', updateWalkers)
    n = ns.initEnsemble if hasattr(type(ns), 'initSample') and 'initEnsemble' in ns.__dict__ else ns.__dict__.get('ensemble')
    dynamic = ns.problem.isDynamic()
    return log


def make(ctx, kind, seed):
    import numpy
    c = ctx.cls
    x = numpy.linspace(0.0, 1.0, 7)
    y = 1.0 + 2.0 * x + 0.1 * numpy.cos(17 * x + seed)
    if kind in ('solver', 'solver2'):
        pos = numpy.random.RandomState(seed).rand(6, 2)
        return c('NestedSolver')(c('SalesmanProblem')(pos), ensemble=8, discard=1 if kind == 'solver' else 2, seed=seed, verbose=0)
    if kind == 'poly':
        m = c('PolynomialModel')(2)
        m.setLimits([-10.0] * 3, [10.0] * 3)
    elif kind in ('dynamic', 'dynamic hyper'):
        m = c('PolynomialDynamicModel')(1, minDegree=0, maxDegree=3) if 0 else c('PolynomialDynamicModel')(1)
        m.setLimits([-10.0], [10.0])
    else:
        m = c('ExpModel')() if kind == 'exp' else c('PolynomialModel')(1)
        m.setLimits([-5.0] * 2, [5.0] * 2)
    kw = dict(ensemble=10, seed=seed, verbose=0)
    if kind == 'errors':
        P = c('ErrorsInXandYProblem')(m, xdata=x, ydata=y)
        P.prior = c('UniformPrior')(limits=[-1.0, 2.0])
        return c('NestedSampler')(problem=P, distribution='gauss', **kw)
    if kind == 'phantom':
        return c('PhantomSampler')(x, m, y, limits=[0.05, 5.0], **dict(kw, ensemble=30))
    if kind == 'phantom step':
        return c('PhantomSampler')(x, m, y, step=10, **dict(kw, ensemble=12))
    if kind == 'discard':
        return c('NestedSampler')(x, m, y, discard=3, **kw)
    if kind == 'scale':
        return c('NestedSampler')(x, m, y, limits=[0.05, 5.0], **kw)
    if kind == 'threads':
        return c('NestedSampler')(x, m, y, threads=True, discard=2, **kw)
    if kind == 'engines':
        return c('NestedSampler')(x, m, y, engines=['chord', 'gibbs', 'step', 'random'], **kw)
    if kind == 'copy':
        ns = c('NestedSampler')(x, m, y, **kw)
        ns.copymode = 1
        return ns
    if kind == 'keep':
        return c('NestedSampler')(x, m, y, limits=[0.05, 5.0], keep={0: 1.0}, **kw)
    if kind == 'laplace':
        return c('NestedSampler')(x, m, y, distribution='laplace', limits=[0.05, 5.0], weights=numpy.linspace(1.0, 2.0, 7), **kw)
    if kind == 'dynamic hyper':
        return c('NestedSampler')(x, m, y, limits=[0.05, 5.0], **kw)
    return c('NestedSampler')(x, m, y, **kw)


def real(ctx, kind):
    import warnings
    warnings.simplefilter('ignore')
    ns = make(ctx, kind, ctx.int(1, 4000))
    ns.minimumIterations = 15
    ns.end = 1
    ns.maxIterations = 60
    log = audited(ctx, ns)
    ns.sample()
    import numpy as np
    sl = ns.samples
    ctx.same('every booked walker is a sample', len(sl), len(log))
    L, W = np.array([a for a, b in log]), np.array([b for a, b in log])
    ctx.ok('discarded values never decrease', bool((np.diff(L) >= 0).all()))
    logZ = W.max() + np.log(np.exp(W - W.max()).sum())
    ctx.eq('evidence is the sum of the weights', ns.logZ, logZ, tol=1e-9)
    P = np.exp(W - logZ)
    ctx.eq('information is the mean log likelihood minus log evidence', ns.info, (P * L).sum() - logZ, tol=1e-7)
    ctx.eq('weights sum to one', sl.getWeightEvolution().sum(), 1.0, tol=1e-9)
    ctx.eq('weights are those booked', sl.getLogWeightEvolution(), W - logZ, tol=1e-8)
    ctx.eq('evidence of the samples', sl.evidence, ns.evidence)
    ctx.eq('the last sample is the best', sl.maxLikelihoodIndex + 0.0, -1.0)
    ctx.eq('the last sample is the best', sl[-1].logL, L.max())
    if kind == 'keep':
        ctx.ok('kept parameter', all(s.parameters[0] == 1.0 for s in sl))
    if ns.problem.model and not ns.problem.isDynamic():
        a = np.sum(P[:, None] * np.array([s.parameters for s in sl]), axis=0)
        ctx.eq('parameters are the averages', ns.problem.model.parameters, a, tol=1e-8)


for kind in ('poly', 'exp', 'scale', 'discard', 'engines', 'keep', 'laplace', 'threads', 'copy', 'phantom', 'phantom step', 'errors', 'solver', 'solver2', 'dynamic', 'dynamic hyper'):
    add('S03', 'real run %s' % kind, real, kind, mode="bounded", nreal=8)
