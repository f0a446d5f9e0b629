"""S01: exploration engines.  The likelihood is an uninterpreted function of all parameters, every random number is arbitrary in
its range, the walkers sit anywhere inside their domain, the ranges the phantom collection reports are arbitrary (its own
contract is proved below).  The list of walkers is audited at the end of every path, wherever it is cut, so that each
pass of an engine's loop is judged from an arbitrary valid state; the number of passes is bounded (counted as unrolled)."""
from vc.prove import add
from vc.sym import PathEnd
from contracts.compound import abstract
from contracts.iterfit import quiet, Swap

LIM = [(0.0, 2.0), (-1.0, 3.0), (-4.0, -2.0)]
HLIM = (0.5, 2.5)


class State(object):
    cnt = 0
    """problem, error distribution, walkers and a threshold"""
    def __init__(self, ctx, p, fit, hyper, nw=2, calls=4, lims=LIM, engine=None, edges=True):
        self.edges = edges
        State.cnt = 0
        self.ctx, self.p, self.hyper, self.calls = ctx, p, hyper, calls
        np = self.np = ctx.np
        A = abstract(ctx)
        m = A('f', p)
        for k in range(p):
            m.setPrior(k, ctx.cls('UniformPrior')(limits=list(lims[k])))
        self.P = ctx.cls('ClassicProblem')(model=m, xdata=np.array([0.0, 1.0]), ydata=np.array([1.0, 2.0]))
        ed = self.ed = ctx.cls('GaussErrorDistribution')()
        ed.hyperpar[0].prior = ctx.cls('UniformPrior')(limits=list(HLIM))
        if not hyper:
            object.__setattr__(ed, 'hyperpar', [])
        self.n = p + (1 if hyper else 0)
        self.fit = list(fit)
        self.dom = [lims[k] for k in range(p)] + ([HLIM] if hyper else [])
        st = object.__setattr__
        st(ed, 'logLikelihood', self.logL)
        st(ed, 'partialLogL', self.dlogL)
        self.ncall = 0
        self.low = None
        self.free = {k % self.n for k in self.fit}
        self.keepval = [ctx.real('kept%d' % k) if k < p else ctx.real('kepts', pos=True) for k in range(self.n)]
        fi = np.array(self.fit)
        first = self.pars('w0')
        self.wl = ctx.cls('WalkerList')(problem=self.P, ensemble=nw, allpars=first, fitIndex=fi)
        for i, w in enumerate(self.wl):
            w.allpars = first.copy() if i == 0 else self.pars('w%d' % i)
            st(w, 'logL', self.F(w.allpars))
        self.before = list(self.wl)
        self.state = [(w.id, w.logL, w.allpars.copy(), list(w.fitIndex), w.problem) for w in self.wl]
        self.fi0 = list(self.fit)
        self.stored = []

    def pars(self, tag):
        v = []
        for k in range(self.n):
            lo, hi = self.dom[k]
            if not self.edges and not self.ctx.sym:
                lo, hi = lo + 0.01, hi - 0.01
            v.append(self.ctx.real('%s_%d' % (tag, k), lo=lo, hi=hi, special=(lo, hi) if self.edges else ()) if k in self.free else self.keepval[k])
        return self.ctx.array(v)

    def F(self, p):
        return self.ctx.ufun('F')(*[p[k] for k in range(self.n)])

    def logL(self, problem, allpars):
        self.ncall += 1
        if self.ctx.sym and self.ncall > self.calls:
            self.audit()
            raise PathEnd()
        self.ctx.ok('number of parameters of a proposal', len(allpars) == self.n)
        return self.F(allpars)

    def dlogL(self, problem, allpars, fitIndex):
        return self.ctx.array([self.ctx.ufun('dF%d' % k)(*[allpars[i] for i in range(self.n)]) for k in range(len(fitIndex))])

    def begin(self, kw, append, gap=True):
        self.kw, self.append = kw, append
        self.low = self.before[kw].logL - (self.ctx.real('gap', lo=0.0, special=(0.0,)) if self.ctx.sym else self.ctx.real('gap', lo=0.0, hi=3.0, special=(0.0,)))
        return self.low

    def good(self, w, tag):
        ctx = self.ctx
        ctx.le('log likelihood of %s not below the threshold' % tag, self.low, w.logL)
        ctx.eq('log likelihood of %s' % tag, w.logL, self.F(w.allpars))
        ctx.same('number of parameters of %s' % tag, len(w.allpars), self.n)
        for k in range(self.n):
            lo, hi = self.dom[k]
            if k in self.free:
                ctx.le('parameters of %s inside the domain' % tag, lo, w.allpars[k])
                ctx.le('parameters of %s inside the domain' % tag, w.allpars[k], hi)
            else:
                ctx.eq('parameters of %s that are not fitted' % tag, w.allpars[k], self.keepval[k])
        ctx.same('fitted indices of %s' % tag, [int(k) for k in w.fitIndex], self.fi0)

    def audit(self):
        ctx = self.ctx
        nb = len(self.before)
        for i in range(min(nb, len(self.wl))):
            w = self.wl[i]
            id, logL, pars, fi, P = self.state[i]
            if w is self.before[i]:
                ctx.eq('parameters of a walker left alone', w.allpars, pars)
                ctx.eq('log likelihood of a walker left alone', w.logL, logL)
                ctx.same('fitted indices of a walker left alone', [int(k) for k in w.fitIndex], fi)
            else:
                ctx.ok('only the addressed walker changes', i == self.kw and not self.append)
                self.good(w, 'the changed walker')
                ctx.same('identity of the changed walker', w.id, id)
        ctx.ok('length of the list', len(self.wl) == nb if not self.append else len(self.wl) >= nb)
        for i in range(nb, len(self.wl)):
            self.good(self.wl[i], 'an appended walker')
            ctx.same('identity of an appended walker', self.wl[i].id, i)
        for w in self.stored:
            self.good(w, 'a stored phantom')
        arr = [w.allpars for w in self.wl] + [w.allpars for w in self.stored if not any(w is v for v in self.wl)]
        for i in range(len(arr)):
            for j in range(i):
                ctx.ok('walkers do not share parameters', arr[i] is not arr[j])


def phantoms(ctx, S, wide):
    """what an engine asks from a collection of phantoms"""
    if not ctx.sym:
        ph = ctx.cls('PhantomCollection')()
        for w in S.before:
            ph.storeItems(w)
        store = ph.storeItems

        def both(w):
            S.stored.append(w)
            store(w)
        ph.storeItems = both
        return ph
    P = ctx.cls('PhantomCollection')()

    def minmax(low, np=0):
        if not wide:
            return None, None
        lo, hi = [], []
        for k in range(S.n):
            if k in S.free:
                a, b = ctx.real('pmin%d' % k, lo=S.dom[k][0]), ctx.real('pmax%d' % k, hi=S.dom[k][1])
                ctx.assume(a <= b)
            else:
                a = b = S.keepval[k]
            lo.append(a)
            hi.append(b)
        return ctx.array(lo), ctx.array(hi)
    P.getParamMinmax = minmax
    P.storeItems = S.stored.append
    return P


class Capped(object):
    """redrawing until a number is inside: the later draws repeat the state of the first"""
    def __init__(self, ctx, cap, S):
        self.r, self.ctx, self.n, self.S = ctx.rng(), ctx, cap, S

    def __getattr__(self, k):
        f = getattr(self.r, k)

        def g(*a, **kw):
            self.n -= 1
            if self.n < 0 and self.ctx.sym:
                self.S.audit()
                raise PathEnd()
            return f(*a, **kw)
        return g

    def __deepcopy__(self, memo):
        return self


def stubs(ctx, name):
    """callees of an engine by their contracts: any direction, any velocity, any edge (see 'direction', 'velocities', 'edge')"""
    if not ctx.sym:
        return {}
    R = ctx.rng()
    if name == 'ChordEngine':
        class Basis(object):
            def normalise(self, v, reset=False):
                return R.randn(len(v))
        return dict(OrthonormalBasis=Basis)
    if name == 'GalileanEngine':
        U = ctx.mod('GalileanEngine').UnitMovements

        class Moves(U):
            def __init__(self, walker, engine, size, low):
                self.problem, self.fitIndex, self.engine = walker.problem, walker.fitIndex, engine
                self.np = len(self.fitIndex)
                self.uvel = R.randn(self.np)

            def trialStep(self, f, size):
                st = State.cnt = State.cnt + 1
                self.uptry = ctx.array([ctx.real('u%d_%d' % (st, k), lo=0.0, hi=1.0) for k in range(self.np)])
                self.uvtry = self.uvel
                return self.engine.unit2Domain(self.problem, self.uptry, kpar=self.fitIndex)

            def mirrorOnLowL(self, d):
                pass

            def reverseVelocity(self, size):
                pass
        return dict(UnitMovements=Moves)
    return {}


def engine(ctx, name, p, fit, hyper, append, wide, calls, nstep, maxtrials, draws=8):
    S = State(ctx, p, fit, hyper, calls=calls, edges=name != 'GibbsEngine')
    kw = ctx.int(0, 1)
    low = S.begin(kw, append)
    E = ctx.cls(name)(S.wl, S.ed, phantoms=phantoms(ctx, S, wide))
    E.rng = Capped(ctx, draws, S)
    if not ctx.sym:
        nstep, maxtrials = ctx.choose([1, 2, 5]), ctx.choose([1, 3, 8])
    E.nstep, E.maxtrials = nstep, maxtrials
    if hyper and append:
        E = E.copy()
        E.rng = Capped(ctx, draws, S)
    if name == 'GalileanEngine' and ctx.sym:
        E.quadinterpol = lambda *a: ctx.rng().rand()
    with Swap(ctx, name, **stubs(ctx, name)):
        n = quiet(E.execute, kw, low, append=append, iteration=ctx.choose([0, 1]) if not ctx.sym else 0)
    S.audit()
    changed = [w for i, w in enumerate(S.wl) if i >= len(S.before) or w is not S.before[i]]
    ctx.ok('reports no moves exactly when nothing changed', (n > 0) == (len(changed) > 0))
    ctx.same('calls counted', E.report[E.NCALLS], 1)
    ctx.same('every success stored', len(S.stored), E.report[E.SUCCESS])


SETS = dict(all=(2, (0, 1), False), hyper=(1, (0, -1), True), part=(2, (1,), False), hyperkept=(2, (0, 1), True), one=(1, (0,), False))
for nm, calls, nstep, mt, dr, wide in (('StepEngine', 2, 1, 1, 2, 'all hyper part'), ('GibbsEngine', 2, 1, 2, 4, 'all hyper part'), ('RandomEngine', 2, 2, 1, 2, 'all hyper part'),
                                       ('GalileanEngine', 5, 0, 3, 2, ''), ('ChordEngine', 2, 1, 2, 4, 'part one')):
    for sn, (p, fit, hyper) in SETS.items():
        for app in (False, True):
            add('S01', '%s %s%s' % (nm, sn, ' append' if app else ''), engine, nm, p, fit, hyper, app, sn in wide.split(), calls, nstep, mt, dr, mode='unrolled', maxpaths=800, timeout=300, nreal=30)


# --------------------------------------------------------------------------------- callees by themselves
def trial(ctx, p, fit, hyper):
    """a trial step lands inside the domain from any position and with any velocity, and turns the velocity where it reflects"""
    np = ctx.np
    S = State(ctx, p, fit, hyper, nw=1)
    E = ctx.cls('GalileanEngine')(S.wl, S.ed, phantoms=phantoms(ctx, S, False))
    E.rng = ctx.rng()
    low = S.begin(0, False)
    u = ctx.mod('GalileanEngine').UnitMovements(S.wl[0], E, 0.5, low)
    n = len(S.fit)
    ctx.ok('range of the velocities', np.all(abs(u.uvel) <= 0.25 * 1.0000001))
    f = ctx.real('f', lo=0.0, hi=1.0, special=(0.5, 1.0))
    v = ctx.array([ctx.real('v%d' % k) for k in range(n)])
    u.uvel = v.copy()
    x0 = u.upar.copy()
    for k, i in enumerate(S.fit):
        lo, hi = S.dom[i]
        ctx.eq('position in the unit box', lo + (hi - lo) * u.upar[k], S.wl[0].allpars[i])
    r = u.trialStep(f, 0.5)
    free = True
    for k, i in enumerate(S.fit):
        lo, hi = S.dom[i]
        ctx.le('inside the domain', lo, r[k])
        ctx.le('inside the domain', r[k], hi)
        ctx.eq('position of the trial', lo + (hi - lo) * u.uptry[k], r[k])
        t = x0[k] + f * v[k]
        inside = (t > 0) & (t < 1)
        over = (t > 1) & (t < 2)
        under = (t > -1) & (t < 0)
        ctx.eq('straight step', ctx.where(inside, u.uptry[k], 0), ctx.where(inside, t, 0))
        ctx.eq('step reflected at the top', ctx.where(over, u.uptry[k], 0), ctx.where(over, 2 - t, 0))
        ctx.eq('step reflected at the bottom', ctx.where(under, u.uptry[k], 0), ctx.where(under, -t, 0))
        ctx.ok('direction after a straight step', ctx.where(inside, u.uvtry[k] * v[k], 0) >= 0)
        ctx.ok('direction after a reflection', ctx.where(over | under, u.uvtry[k] * v[k], 0) <= 0)
    u.acceptTrial()
    ctx.eq('position after accepting', u.upar, u.uptry)
    ctx.eq('velocity after accepting', u.uvel, u.uvtry)
    ctx.eq('walker left alone', S.wl[0].allpars, S.state[0][2])


def mirror(ctx, n):
    np = ctx.np
    S = State(ctx, n, tuple(range(n)), False, nw=1)
    E = ctx.cls('GalileanEngine')(S.wl, S.ed, phantoms=phantoms(ctx, S, False))
    E.rng = ctx.rng()
    low = S.begin(0, False)
    u = ctx.mod('GalileanEngine').UnitMovements(S.wl[0], E, 0.5, low)
    v = ctx.array([ctx.real('v%d' % k) for k in range(n)])
    d = ctx.array([ctx.real('d%d' % k) for k in range(n)])
    dd = np.sum(d * d)
    ctx.assume(dd > (0 if ctx.sym else 1e-6))
    u.uvel = v.copy()
    old = ctx.snap(d)
    u.mirrorOnLowL(d)
    w = u.uvel
    ctx.eq('component along the gradient reversed', np.sum(w * d), -np.sum(v * d))
    for k in range(n):
        ctx.eq('change of the velocity along the gradient only', (w[k] - v[k]) * dd, -2 * d[k] * np.sum(v * d))
    ctx.eq('speed kept', np.sum(w * w), np.sum(v * v))
    ctx.unchanged('gradient', [d], old)
    u.uvel = v.copy()
    u.mirrorOnLowL(d * 0)
    ctx.eq('no gradient, no change', u.uvel, v)


def edge(ctx):
    """the fraction of the step where the parabola through the three likelihoods meets the threshold"""
    E = ctx.cls('GalileanEngine')([], None, phantoms=1)
    L0, Lm, L1, low = ctx.real('L0'), ctx.real('Lm'), ctx.real('L1'), ctx.real('low')
    ctx.assume(L0 >= low)
    ctx.assume(L1 < low)
    a, b = 2 * L0 - 4 * Lm + 2 * L1, 4 * Lm - L1 - 3 * L0
    if not ctx.sym:
        ctx.assume(abs(a) > 0.01)
    f = E.quadinterpol(L0, Lm, L1, low)
    ctx.eq('on the threshold', a * f * f + b * f + L0, low, tol=1e-6)
    ctx.le('not before the start', 0, f, tol=1e-7)
    ctx.le('not past the end', f, 1, tol=1e-7)


for sn, (p, fit, hyper) in SETS.items():
    add('S01', 'Galilean trial step %s' % sn, trial, p, fit, hyper, maxpaths=400)
for n in (1, 2, 3):
    add('S01', 'Galilean mirror %d' % n, mirror, n)
add('S01', 'Galilean edge', edge, maxpaths=60)


# ------------------------------------------------------------------------------------- start, boost, explorer, unit box
def start(ctx, p, fit, hyper, fails):
    """the first walkers: anywhere in the domain, with a finite likelihood"""
    np = ctx.np
    S = State(ctx, p, fit, hyper, nw=3, calls=fails + 1)
    kw = ctx.int(0, 2)
    S.kw, S.append = kw, False
    S.low = -float('inf')
    tries = [0]

    def logL(problem, allpars):
        tries[0] += 1
        if tries[0] <= fails:
            return -float('inf')
        return S.F(allpars)
    object.__setattr__(S.ed, 'logLikelihood', logL)
    E = ctx.cls('StartEngine')(S.wl, S.ed, phantoms=phantoms(ctx, S, False))
    E.rng = ctx.rng()
    E.maxtrials = max(fails, 1)
    n = E.execute(kw, -float('inf'))
    ctx.same('parameters started', n, len(fit))
    ctx.same('tries', tries[0], fails + 1)
    S.low = S.F(S.wl[kw].allpars)
    S.audit()
    ctx.ok('walker replaced', S.wl[kw] is not S.before[kw])
    ctx.same('stored', len(S.stored), 1)
    ctx.ok('stored the new walker', S.stored[0] is S.wl[kw])


def nostart(ctx):
    S = State(ctx, 1, (0,), False, nw=1)
    S.kw, S.append, S.low = 0, False, S.before[0].logL
    object.__setattr__(S.ed, 'logLikelihood', lambda P, a: -float('inf'))
    E = ctx.cls('StartEngine')(S.wl, S.ed, phantoms=phantoms(ctx, S, False))
    E.rng = ctx.rng()
    E.maxtrials = 2
    ctx.raises('no valid start', RuntimeError, lambda: E.execute(0, 0.0))
    S.audit()
    ctx.same('nothing stored', len(S.stored), 0)


def boost(ctx, p, fit, hyper, best):
    """improving a new best walker by a fit whose answer is arbitrary"""
    np = ctx.np
    S = State(ctx, p, fit, hyper, nw=2, calls=9)
    S.kw, S.append = 0, False
    ph = phantoms(ctx, S, False)
    top = S.before[1]
    ph.getList = lambda w: None if best is None else S.before[1:]
    E = ctx.cls('Engine')(S.wl, S.ed, phantoms=ph)
    seen = []

    class Fitter(object):
        def __init__(self, x, m):
            self.model = m

        def fit(self, y, par0=None, keep=None):
            seen.append((par0.copy(), dict(keep or {})))
            if best == 'error':
                raise ValueError('no convergence')
            q = ctx.array([ctx.real('fit%d' % k) for k in range(p)])
            for k, v in (keep or {}).items():
                q[k] = v
            return q

        def getScale(self):
            return ctx.real('fitscale')
    E.bestBoost(S.P, myFitter=Fitter)
    a = S.pars('new')
    L = S.F(a)
    S.low = L
    old = a.copy()
    E.setWalker(0, S.P, a, L, fitIndex=S.before[0].fitIndex)
    S.audit()
    w = S.wl[0]
    ctx.eq('parameters of the caller', a, old)
    if seen:
        ctx.eq('start of the fit', seen[0][0], a[:p])
        ctx.ok('only the best is boosted', top.logL < L)
        ctx.same('parameters kept in the fit', sorted(seen[0][1]), [k for k in range(p) if k not in S.free])
    else:
        ctx.ok('the best is boosted', best is None or top.logL >= L)


class Stub(object):
    """an engine that may move the walker anywhere valid"""
    def __init__(self, ctx, S, moves, log, slow=None):
        self.ctx, self.S, self.moves, self.log = ctx, S, moves, log
        if slow is not None:
            self.slow = slow

    def execute(self, kw, low, append=False, iteration=0):
        S, ctx = self.S, self.ctx
        self.log.append((self, kw, low, append, iteration))
        if not self.moves:
            return 0
        a = S.pars('moved%d' % len(self.log))
        L = S.F(a)
        ctx.assume(L >= low)
        w = ctx.cls('Walker')(S.wl[kw].id, S.P, a, S.wl[kw].fitIndex)
        object.__setattr__(w, 'logL', L)
        S.wl.setWalker(w, len(S.wl) if append else kw)
        return self.moves


class NS(object):
    pass


def explorer(ctx, append, moves, slow):
    """the explorer calls every selected engine for the addressed walkers only, with the threshold, until there are enough moves"""
    S = State(ctx, 2, (0, 1), False, nw=3, calls=99)
    kw = ctx.int(0, 2)
    low = S.begin(kw, append)
    for w in S.before:
        ctx.assume(w.logL >= low)
    log = []
    ns = NS()
    ns.walkers, ns.distribution, ns.rng, ns.rate, ns.maxtrials, ns.verbose = S.wl, S.ed, ctx.rng(), 0.5, 1, 0
    ns.engines = [Stub(ctx, S, moves, log), Stub(ctx, S, 0, log), Stub(ctx, S, moves, log, slow=slow)]
    ns.usePhantoms = append
    if not append:
        del ns.usePhantoms
    X = ctx.cls('Explorer')(ns)
    it = ctx.int(1, 4)
    X.explore([kw], low, it)
    S.audit()
    ctx.ok('addressed walker only', all(c[1] == kw for c in log))
    ctx.ok('threshold', all(c[2] is low or c[2] == low for c in log))
    ctx.ok('mode', all(c[3] == append and c[4] == it for c in log))
    sel = ns.engines[:2] + ([ns.engines[2]] if it % slow == 0 else [])
    k = len(sel)
    for i in range(0, len(log), k):
        ctx.same('every selected engine in a trial', sorted(sel.index(c[0]) for c in log[i:i + k]), list(range(k)))
    per = moves * (k - 1)
    ctx.same('number of trials', len(log) // k, max(1, min(2, -(-4 // per))) if moves else 2)


def below(ctx):
    """a walker below the threshold does not pass unnoticed, nor one that carries a wrong likelihood"""
    S = State(ctx, 2, (0, 1), False, nw=2, calls=99)
    low = S.before[0].logL + ctx.real('gap', pos=True)
    ns = NS()
    ns.walkers, ns.distribution, ns.rng, ns.rate, ns.maxtrials, ns.verbose = S.wl, S.ed, ctx.rng(), 1.0, 1, 0
    ns.engines = [Stub(ctx, S, 0, [])]
    X = ctx.cls('Explorer')(ns)
    ctx.raises('walker below the threshold', Exception, lambda: X.explore([0], low, 1))
    S.low = None
    w = S.wl[1]
    object.__setattr__(w, 'logL', S.F(w.allpars) + ctx.real('wrong', pos=True))
    X.iteration = 1
    ctx.raises('wrong likelihood', ValueError, lambda: quiet(X.logLcheck, w))
    object.__setattr__(w, 'logL', S.F(w.allpars))
    X.logLcheck(w)
    w.allpars = ctx.array([S.dom[0][1] + ctx.real('out', pos=True), w.allpars[1]])
    object.__setattr__(w, 'logL', S.F(w.allpars))
    ctx.raises('outside the domain', ValueError, lambda: X.logLcheck(w))


def unitbox(ctx, hyper):
    """mapping of lists of parameters by the prior of each; negative indices are hyper parameters"""
    np = ctx.np
    S = State(ctx, 2, (0, 1) + ((-1,) if hyper else ()), hyper, nw=1)
    E = ctx.cls('Engine')(S.wl, S.ed, phantoms=1)
    u = ctx.array([ctx.real('u%d' % k, lo=0.0, hi=1.0) for k in range(S.n)])
    want = ctx.array([S.dom[k][0] + u[k] * (S.dom[k][1] - S.dom[k][0]) for k in range(S.n)])
    old = ctx.snap(u, want)
    ctx.eq('all to the domain', E.unit2Domain(S.P, u), want)
    ctx.eq('all to the unit box', E.domain2Unit(S.P, want), u)
    for k in range(-1 if hyper else 0, 2):
        ctx.eq('one to the domain', E.unit2Domain(S.P, u[k], kpar=k), want[k])
        ctx.eq('one to the unit box', E.domain2Unit(S.P, want[k], kpar=k), u[k])
    for kl in ([1], [1, 0], [0, 1]) + (([-1], [1, -1], [-1, 0]) if hyper else ()):
        ctx.eq('some to the domain', E.unit2Domain(S.P, u[kl], kpar=kl), want[kl])
        ctx.eq('some to the unit box', E.domain2Unit(S.P, want[kl], kpar=np.array(kl)), u[kl])
    ctx.unchanged('arrays', [u, want], old)
    a, b = ctx.array([ctx.real('a%d' % k) for k in range(S.n)]), ctx.array([ctx.real('b%d' % k, lo=0.0) for k in range(S.n)])
    ph = NS()
    E.phantoms = ph
    ph.getParamMinmax = lambda low, np=0: (a, a + b)
    lo, hi = E.getUnitMinmax(S.P, 0.0)
    unit = lambda v: ctx.array([(v[k] - S.dom[k][0]) / (S.dom[k][1] - S.dom[k][0]) for k in range(S.n)])
    ctx.eq('lowest in the unit box', lo, unit(a))
    ctx.eq('highest in the unit box', hi, unit(a + b))
    r, lo = E.getUnitRange(S.P, 0.0)
    ctx.eq('range in the unit box', r, unit(a + b) - unit(a))
    ctx.eq('start of the range', lo, unit(a))
    ph.getParamMinmax = lambda low, np=0: (None, None)
    r, lo = E.getUnitRange(S.P, 0.0)
    ctx.eq('range when nothing is known', r, np.ones(S.n))
    ctx.eq('start when nothing is known', lo, np.zeros(S.n))


for sn, (p, fit, hyper) in SETS.items():
    for fails in (0, 1, 2):
        add('S01', 'StartEngine %s fails %d' % (sn, fails), start, p, fit, hyper, fails)
    for best in (None, 'worse', 'error'):
        add('S01', 'boost %s %s' % (sn, best), boost, p, fit, hyper, best)
add('S01', 'StartEngine without solution', nostart)
for append in (False, True):
    for moves in (0, 1, 3):
        for slow in (1, 2, 3):
            add('S01', 'Explorer%s moves %d slow %d' % (' append' if append else '', moves, slow), explorer, append, moves, slow, mode='unrolled', maxpaths=800)
add('S01', 'Explorer below', below)
add('S01', 'unit box', unitbox, False)
add('S01', 'unit box hyper', unitbox, True)


# ------------------------------------------------------------------------------------------------ explorer
class Mover(object):
    """an engine that keeps its contract: reports moves exactly when it replaced the walker by one above the threshold"""
    def __init__(self, S, tag, slow=None):
        self.S, self.tag, self.log = S, tag, S.log
        if slow:
            self.slow = slow

    def execute(self, kw, low, append=False, iteration=0):
        S, ctx = self.S, self.S.ctx
        self.log.append((self.tag, kw, append, iteration))
        ctx.eq('threshold given to the engine', low, S.low)
        ctx.eq('threshold of the distribution', S.ed.lowLhood, S.low)
        k = len(self.log)
        if not ctx.choose([False, True]):
            return 0
        w = S.wl[kw].copy()
        w.allpars = S.pars('m%d' % k)
        L = S.F(w.allpars)
        if not ctx.assume(L >= low):
            L = L
        object.__setattr__(w, 'logL', L)
        S.wl.setWalker(w, len(S.wl) if append else kw)
        return ctx.choose([1, 3])


def explorer(ctx, ph, slow, iteration, lie=None, threads=False):
    S = State(ctx, 2, [0, 1], False, calls=99)
    S.log = []
    S.low = S.before[1].logL - ctx.real('gap', lo=0.0, hi=None if ctx.sym else 3.0)
    ns = NS()
    engines = [Mover(S, 'a'), Mover(S, 'b', slow)]
    ns.walkers, ns.engines, ns.distribution, ns.rng = S.wl, engines, S.ed, ctx.rng()
    ns.rate, ns.maxtrials, ns.verbose = 1.0, 2, 0
    ns.rng.permutation = lambda e: list(range(e)) if isinstance(e, int) else list(e)
    if ph:
        ns.usePhantoms = True
    E = ctx.cls('Explorer')(ns)
    if lie == 'stale':
        object.__setattr__(S.before[1], 'logL', S.before[1].logL + 1)
        for e in engines:
            e.execute = lambda *a, **k: 0
        ctx.raises('an unmoved walker with another likelihood is noticed', ValueError, lambda: E.explore([1], S.low, iteration))
        return
    if lie == 'low':
        S.low = S.before[1].logL + 1
        for e in engines:
            e.execute = lambda *a, **k: 1
        ctx.raises('a walker below the threshold is noticed', Exception, lambda: E.explore([1], S.low, iteration))
        return
    E.explore([1], S.low, iteration)
    use = ['a'] if slow and iteration % slow else ['a', 'b']
    ctx.ok('something was tried', len(S.log) > 0)
    ctx.ok('every selected engine in turn', [t[0] for t in S.log] == (use * len(S.log))[:len(S.log)] and len(S.log) % len(use) == 0)
    ctx.ok('how it is called', all(t[1:] == (1, ph, iteration) for t in S.log))
    ctx.ok('not more trials than allowed', len(S.log) <= 2 * len(use))
    ctx.le('explored walker not below the threshold', S.low, S.wl[len(S.wl) - 1 if ph else 1].logL)
    ctx.ok('others in place', S.wl[0] is S.before[0])
    ctx.eq('others unchanged', S.wl[0].allpars, S.state[0][2])


for ph in (False, True):
    for slow, it in ((None, 3), (2, 3), (2, 4)):
        add('S01', 'explorer%s %s %d' % (' phantoms' if ph else '', slow, it), explorer, ph, slow, it, mode='unrolled', maxpaths=2000)
add('S01', 'explorer stale', explorer, False, None, 1, 'stale', mode='unrolled')
add('S01', 'explorer low', explorer, False, None, 1, 'low', mode='unrolled')
