"""S02: order engines and tour costs.  The number of places is enumerated, their positions, distances and the likelihood of every
ordering are arbitrary; every choice the random generator can make is followed (the length of a stretch up to 3).  Engines that
only move elements about get arbitrary symbols to order; those that look at positions get the ordering 0,1,2.. of arbitrary
positions, which is general up to renaming the places."""
import math
from vc.prove import add
from vc.sym import PathEnd
from contracts.engines import NS, Capped
from contracts.iterfit import quiet


def places(ctx, n, dim=2):
    return ctx.np.array([[ctx.real('x%d_%d' % (k, d)) for d in range(dim)] for k in range(n)])


class Tours(object):
    def __init__(self, ctx, n, symbols, nw=2, calls=3):
        self.ctx, self.n, self.calls, self.ncall = ctx, n, calls, 0
        np = ctx.np
        st = object.__setattr__
        self.x = places(ctx, n)
        if not ctx.sym:
            self.x = np.array(self.x, dtype=float)

        class Places(ctx.cls('OrderProblem')):
            def copy(self):
                return Places(copy=self)

            def distance(self, xd, pars, roll=1):
                return np.sum(np.square(xd[pars] - np.roll(xd[pars], -roll, axis=0)), 1)
        P = self.P = Places(xdata=self.x)
        ed = self.ed = ctx.cls('DistanceCostFunction')()
        st(ed, 'logLikelihood', self.logL)
        self.symbols = symbols and ctx.sym
        if self.symbols:
            self.labels = [ctx.real('label%d' % k) for k in range(n)]
        else:
            self.labels = list(range(n))
        base = ctx.array(self.labels) if self.symbols else np.arange(n)
        self.wl = ctx.cls('WalkerList')(problem=P, ensemble=nw, allpars=base, fitIndex=np.arange(n))
        for i, w in enumerate(self.wl):
            order = base.copy()
            if not ctx.sym:
                ctx.rng()
                order = np.array(sorted(range(n), key=lambda k: ctx.real('o%d_%d' % (i, k))))
            elif i:
                order = base[::-1].copy()
            w.allpars = order
            st(w, 'logL', self.F(order))
        for i, w in enumerate(self.wl):              # the sampler sorts its list: places and identities differ
            st(w, 'id', len(self.wl) - 1 - i)
        self.before = list(self.wl)
        self.state = [(w.id, w.logL, w.allpars.copy()) for w in self.wl]
        self.stored = []
        self.low = None

    def F(self, o):
        return self.ctx.ufun('F')(*[o[k] if self.symbols else self.ctx.const(float(int(o[k]))) for k in range(self.n)])

    def logL(self, problem, allpars):
        self.ncall += 1
        if self.ctx.sym and self.ncall > self.calls:
            self.audit()
            raise PathEnd()
        self.perm(allpars, 'proposal')
        return self.F(allpars)

    def perm(self, o, tag):
        ctx = self.ctx
        ctx.same('length of the %s' % tag, len(o), self.n)
        if self.symbols:
            left = list(self.labels)
            for k in range(len(o)):
                hit = [i for i, l in enumerate(left) if l.t is o[k].t]
                ctx.ok('%s is a permutation' % tag, bool(hit))
                if hit:
                    left.pop(hit[0])
            ctx.ok('%s is a permutation' % tag, not left)
        else:
            ctx.ok('%s is a permutation' % tag, sorted(int(k) for k in o) == list(range(self.n)))

    def audit(self):
        ctx = self.ctx
        ctx.same('length of the list', len(self.wl), len(self.before))
        for i, w in enumerate(self.wl):
            id, logL, pars = self.state[i]
            ctx.same('identity', w.id, id)
            if w is self.before[i]:
                ctx.eq('ordering of a walker left alone', w.allpars, pars)
                ctx.eq('log likelihood of a walker left alone', w.logL, logL)
            else:
                ctx.ok('only the addressed walker changes', i == self.kw)
                self.perm(w.allpars, 'stored ordering')
                ctx.eq('log likelihood of the stored ordering', w.logL, self.F(w.allpars))
                ctx.le('not below the threshold', self.low, w.logL)
                ctx.ok('not shared', all(w.allpars is not v.allpars for v in self.before))
        for w in self.stored:
            self.perm(w.allpars, 'stored phantom')
            ctx.le('phantom not below the threshold', self.low, w.logL)
            ctx.eq('log likelihood of the phantom', w.logL, self.F(w.allpars))


def order(ctx, name, n, symbols, calls, once):
    T = Tours(ctx, n, symbols, calls=calls)
    T.kw = kw = ctx.int(0, 1)
    T.low = low = T.before[kw].logL + ctx.real('gap')
    ph = NS()
    ph.storeItems = T.stored.append
    E = ctx.cls(name)(T.wl, T.ed, phantoms=ph)
    E.rng = Capped(ctx, 5, T)
    E.maxtrials = 1 if ctx.sym else ctx.choose([1, 2, 5])
    if once:
        t = E.execute(kw, low, append=False, iteration=ctx.int(0, 3) if not ctx.sym else 1)
        ctx.same('calls counted', E.report[E.NCALLS], 1 if name != 'ShuffleEngine' else E.report[E.NCALLS])
    else:
        t = E.copy().executeOnce(kw, low) if hasattr(E.copy(), 'executeOnce') else 0
    T.audit()
    ch = T.wl[kw] is not T.before[kw]
    ctx.ok('reports a move exactly when the ordering was replaced', (t > 0) == ch)
    ctx.same('successes', E.report[E.SUCCESS], len(T.stored))
    ctx.same('one replacement at most', len(T.stored), 1 if ch else 0)
    if ch:
        ctx.ok('what was stored', T.stored[0] is T.wl[kw])


def startorder(ctx, n):
    T = Tours(ctx, n, True)
    T.kw = kw = ctx.int(0, 1)
    ph = NS()
    ph.storeItems = T.stored.append
    E = ctx.cls('StartOrderEngine')(T.wl, T.ed, phantoms=ph)
    E.rng = ctx.rng()
    t = E.execute(kw, -math.inf)
    ctx.same('elements ordered', t, n)
    T.low = T.F(T.wl[kw].allpars)
    T.audit()
    ctx.ok('ordering replaced', T.wl[kw] is not T.before[kw])


# ------------------------------------------------------------------------------------------------ tours
def dist(ctx, kind, x, i, j):
    np = ctx.np
    if kind == 'manhattan':
        return sum(abs(x[i, d] - x[j, d]) for d in range(x.shape[1]))
    if kind == 'euclid':
        return np.sqrt(sum((x[i, d] - x[j, d]) ** 2 for d in range(x.shape[1])))
    if kind == 'spherical':
        r = math.pi / 180 if not ctx.sym else ctx.mod('SalesmanProblem').math.pi / 180
        lo1, la1, lo2, la2 = x[i, 0] * r, x[i, 1] * r, x[j, 0] * r, x[j, 1] * r
        h = np.sin((la2 - la1) / 2) ** 2 + np.cos(la1) * np.cos(la2) * np.sin((lo2 - lo1) / 2) ** 2
        return h
    raise ValueError(kind)


def tour(ctx, n, kind, wgt, oneway, dim=2):
    """cost of an ordering: distances along the closed tour over the scale"""
    np = ctx.np
    x = places(ctx, n, dim)
    w = ctx.array([ctx.real('w%d' % k, pos=True) for k in range(n)]) if wgt else None
    for i in range(n):
        for j in range(i):
            if ctx.sym:
                ctx.assume(x[i, 0] != x[j, 0])
            else:
                ctx.assume(abs(x[i, 0] - x[j, 0]) > 1e-3)
    sc = ctx.real('scale', pos=True)
    tab = np.array([[ctx.real('t%d%d' % (min(i, j), max(i, j)), pos=True) for j in range(n)] for i in range(n)])
    kw = dict(weights=w, oneway=oneway)
    S = ctx.cls('SalesmanProblem')
    if ctx.sym:
        class S(S):
            def minimumDistance(self):
                return ctx.real('smallest', pos=True)
    if kind == 'table':
        P = S(x, distance='table', table=tab, scale=sc, **kw)
        d = lambda i, j: tab[i, j]
    else:
        P = S(x, distance=kind, scale=sc, **kw)
        d = lambda i, j: dist(ctx, kind, x, i, j)
    if not ctx.sym:
        o = sorted(range(n), key=lambda k: ctx.real('o%d' % k))
    else:
        o = [ctx.choose(list(range(n)))]
        o = o + [(o[0] + k) % n for k in range(2, n)] + [(o[0] + 1) % n]
    o = np.array(o)
    keep = [v for v in (x, w, tab) if v is not None]
    old = ctx.snap(*keep)
    leg = lambda o, k: d(o[k], o[(k + 1) % n])
    if kind == 'spherical':
        r = P.result(o)
        for k in range(n - 1 if oneway else n):
            h = leg(o, k)
            s = r[k] * sc / (w[o[k]] if wgt else 1)
            if not ctx.sym:
                ctx.eq('legs', np.sin(s / 2) ** 2, h, tol=1e-7)
        legs = r
    else:
        legs = [leg(o, k) / sc * (w[o[k]] if wgt else 1) for k in range(n)]
        if oneway:
            legs[-1] = legs[-1] * 0
        ctx.eq('legs', P.result(o), ctx.array(legs))
    ed = ctx.cls('DistanceCostFunction')()
    c = ed.logLikelihood(P, o)
    ctx.eq('cost', c, -sum(legs[k] for k in range(n)))
    Q = P.copy()
    ctx.eq('cost by a copy', ed.logLikelihood(Q, o), c)
    ctx.eq('cost by a copy of the cost function', ed.copy().logLikelihood(P, o), c)
    ctx.same('size of the copy', (Q.npars, Q.ndim, Q.oneway), (P.npars, P.ndim, P.oneway))
    ctx.eq('scale of the copy', Q.scale, P.scale)
    if not oneway:
        for k in range(1, n):
            ctx.eq('wherever the tour starts', ed.logLikelihood(P, np.roll(o, k)), c)
        if not wgt:
            ctx.eq('in either direction', ed.logLikelihood(P, o[::-1].copy()), c)
    ctx.eq('cost again', ed.logLikelihood(P, o), c)
    # tabulated
    if kind in ('manhattan', 'euclid'):
        t = np.array([[d(i, j) for j in range(n)] for i in range(n)])
        R = S(x, distance='table', table=t, scale=sc, **kw)
        ctx.eq('tabulated', ed.logLikelihood(R, o), c)
    if kind != 'spherical':
        R = S(x, distance=(lambda xd, pars, roll=1: ctx.array([d(pars[k], pars[(k + roll) % n]) for k in range(n)])), scale=sc, **kw)
        ctx.eq('user defined', ed.logLikelihood(R, o), c)
    ctx.unchanged('arrays', keep, old)


def smallest(ctx, n, kind, dim=2):
    """the default scale is the smallest distance between two places"""
    np = ctx.np
    x = places(ctx, n, dim)
    for i in range(n):
        for j in range(i):
            dd = dist(ctx, kind, x, i, j)
            ctx.assume(dd >= 0.01)
    P = quiet(ctx.cls('SalesmanProblem'), x, distance=kind)
    hit = False
    for i in range(n):
        for j in range(i):
            dd = dist(ctx, kind, x, i, j)
            ctx.le('scale not above any distance', P.scale, dd, tol=1e-9)
            hit = hit | (dd == P.scale if ctx.sym else abs(dd - P.scale) < 1e-9)
    ctx.ok('scale is one of the distances', hit)
    o = np.arange(n)
    want = -sum(dist(ctx, kind, x, k, (k + 1) % n) for k in range(n))
    ctx.eq('cost in units of the scale', ctx.cls('DistanceCostFunction')().logLikelihood(P, o) * P.scale, want)
    ctx.same('kind', (P.npars, P.ndim, P.ndata), (n, dim, n))
    ctx.eq('first ordering', P.parameters, o)


def spherical(ctx, n):
    """distances over the sphere: by hand for places on the equator and on a meridian (radians per degree)"""
    np = ctx.np
    a = [ctx.real('a%d' % k, lo=0.0, hi=170.0) for k in range(n)]
    for k in range(n):
        for j in range(k):
            ctx.assume(abs(a[k] - a[j]) > 0.1)
    for along in (0, 1):
        x = np.array([[a[k], 0.0] if along == 0 else [ctx.const(10.0), a[k] * 0.5] for k in range(n)])
        P = ctx.cls('SalesmanProblem')(x, distance='spherical', scale=1.0)
        r = P.result(np.arange(n))
        for k in range(n):
            ctx.eq('great circle %d' % along, r[k], abs(x[k, along] - x[(k + 1) % n, along]) * math.pi / 180, tol=1e-7)


for nm, symbols, calls, sizes in (('MoveEngine', True, 2, (3, 4, 5)), ('ReverseEngine', True, 2, (3, 4, 5, 6)), ('SwitchEngine', True, 2, (3, 4, 5, 6)),
                                  ('ShuffleEngine', True, 1, (3,)), ('LoopEngine', False, 2, (3, 4)), ('NearEngine', False, 2, (3, 4))):
    for n in sizes:
        add('S02', '%s %d places' % (nm, n), order, nm, n, symbols, calls, True, mode='unrolled', maxpaths=1500, nreal=40)
    for n in (5, 8, 13):
        add('S02', '%s %d places, samples' % (nm, n), order, nm, n, symbols, calls, True, mode='bounded', nreal=60)
for n in (2, 3, 4):
    add('S02', 'StartOrderEngine %d' % n, startorder, n, mode='unrolled')
for kind in ('manhattan', 'euclid', 'table', 'spherical'):
    for wgt in (False, True):
        for oneway in (False, True):
            add('S02', 'tour %s%s%s' % (kind, ' weighted' if wgt else '', ' one way' if oneway else ''), tour, 4, kind, wgt, oneway, mode='unrolled' if kind != 'spherical' else 'bounded')
add('S02', 'tour euclid 3d', tour, 4, 'euclid', False, False, 3, mode='unrolled')
add('S02', 'tour manhattan 1d', tour, 4, 'manhattan', False, False, 1, mode='unrolled')
for n, kind, mode in ((3, 'manhattan', 'unrolled'), (3, 'euclid', 'bounded'), (4, 'manhattan', 'bounded'), (6, 'euclid', 'bounded')):
    add('S02', 'smallest distance %s %d' % (kind, n), smallest, n, kind, mode=mode)
add('S02', 'spherical', spherical, 4, mode='bounded')
