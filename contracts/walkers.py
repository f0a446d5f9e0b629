"""S04: walkers, samples and their lists.  Lists of up to four elements with arbitrary contents, every order of their likelihoods;
copies are changed in every attribute and compared with the original.  Longer histories: bounded."""
import math
from vc.prove import add
from contracts.compound import abstract


def build(ctx, n, p=2, hyper=1, ordered=False, kind='classic', dyn=False):
    np = ctx.np
    A = abstract(ctx)
    if kind == 'order':
        P = ctx.cls('OrderProblem')(xdata=np.array([[0.0, 1.0], [2.0, 1.0], [1.0, 3.0]]))
        p, hyper = 3, 0
    else:
        m = ctx.cls('PolynomialDynamicModel')(p - 1) if dyn else A('f', p)
        for k in range(p):
            m.setPrior(k, ctx.cls('UniformPrior')(limits=[-10.0, 10.0]))
        P = ctx.cls('ClassicProblem')(model=m, xdata=np.array([0.0, 1.0]), ydata=np.array([1.0, 2.0]))
        if kind == 'errors':
            P = ctx.cls('ErrorsInXandYProblem')(m, xdata=np.array([0.0, 1.0]), ydata=np.array([1.0, 2.0]))
            p = p + 2
    fi = np.arange(p + hyper)
    wl = ctx.cls('WalkerList')(problem=P, ensemble=n, allpars=np.zeros(p + hyper), fitIndex=fi)
    L = None
    for i, w in enumerate(wl):
        w.allpars = ctx.array([ctx.real('w%d_%d' % (i, k)) for k in range(p + hyper)])
        L = ctx.real('L%d' % i) if not ordered or L is None else L + ctx.real('dL%d' % i, lo=0.0, special=(0.0,), hi=None if ctx.sym else 2.0)
        object.__setattr__(w, 'logL', L)
        w.parent = 50 + i
        w.start = 7 + i
    return P, wl


def full(w):
    return dict(id=w.id, parent=w.parent, start=w.start, logL=w.logL, logPrior=w.logPrior, allpars=w.allpars.copy(), fitIndex=None if w.fitIndex is None else [int(k) for k in w.fitIndex])


def equal(ctx, w, s, tag, but=()):
    for k, v in s.items():
        if k in but:
            continue
        if k == 'fitIndex':
            ctx.same('%s of %s' % (k, tag), None if w.fitIndex is None else [int(j) for j in w.fitIndex], v)
        elif k in ('id', 'parent', 'start'):
            ctx.same('%s of %s' % (k, tag), getattr(w, k), v)
        else:
            ctx.eq('%s of %s' % (k, tag), getattr(w, k), v)


def spoil(ctx, w, tag):
    """change everything that can be changed in place"""
    w.allpars[0] = ctx.real('%s0' % tag)
    w.allpars[-1] = ctx.real('%s1' % tag)
    if w.fitIndex is not None:
        w.fitIndex[0] = 5
    w.id, w.parent, w.start = 91, 92, 93
    object.__setattr__(w, 'logL', ctx.real('%sL' % tag))
    object.__setattr__(w, 'logPrior', ctx.real('%sP' % tag))
    m = w.problem.model
    if m is not None and not (m.isDynamic() or m.isModifiable()):
        pass                                # documented: copies of a walker share a model that does not change its form
    elif m is not None:
        m.parameters = ctx.array([ctx.real('%sm%d' % (tag, k)) for k in range(m.npars)])
        m.setPrior(0, ctx.cls('UniformPrior')(limits=[3.0, 4.0]))
    else:
        w.problem.parameters[0] = 2


def modelstate(ctx, P):
    m = P.model
    if m is None:
        return [int(k) for k in P.parameters]
    return m.npars, m.parameters.copy(), [m.getPrior(k) for k in range(2)], [(m.getPrior(k).lowLimit, m.getPrior(k).highLimit) for k in range(2)]


def samemodel(ctx, P, s, tag):
    if P.model is None:
        ctx.same('problem of %s' % tag, [int(k) for k in P.parameters], s)
        return
    m = P.model
    ctx.same('size of the model of %s' % tag, m.npars, s[0])
    ctx.eq('parameters of the model of %s' % tag, m.parameters, s[1])
    for k in range(2):
        ctx.eq('limits of the model of %s' % tag, m.getPrior(k).lowLimit, s[3][k][0])
        ctx.eq('limits of the model of %s' % tag, m.getPrior(k).highLimit, s[3][k][1])


def copywalker(ctx, kind, back, dyn=False):
    P, wl = build(ctx, 1, kind=kind, dyn=dyn)
    w = wl[0]
    object.__setattr__(w, 'logPrior', ctx.real('prior'))
    s, ms = full(w), modelstate(ctx, w.problem)
    v = w.copy()
    equal(ctx, v, s, 'the copy')
    ctx.ok('another problem', v.problem is not w.problem)
    ctx.ok('of the same kind', type(v.problem) is type(w.problem))
    samemodel(ctx, v.problem, ms, 'the copy')
    ctx.ok('another array', v.allpars is not w.allpars)
    a, b = (w, v) if not back else (v, w)
    spoil(ctx, b, 'new')
    if dyn:
        b.problem.model.grow()
    equal(ctx, a, s, 'the one left alone')
    samemodel(ctx, a.problem, ms, 'the one left alone')


def startlist(ctx, n, dyn):
    P, wl = build(ctx, n, dyn=dyn)
    np = ctx.np
    ctx.same('length', len(wl), n)
    ctx.same('identities', [w.id for w in wl], list(range(n)))
    st = [full(w) for w in wl]
    ms = [modelstate(ctx, w.problem) for w in wl]
    spoil(ctx, wl[0], 'new')
    if dyn:
        wl[0].problem.model.grow()
    for i in range(1, n):
        equal(ctx, wl[i], st[i], 'another walker')
        samemodel(ctx, wl[i].problem, ms[i], 'another walker')
    wl.addWalkers(wl[1], 2)
    ctx.same('identities go on', [w.id for w in wl[n:]], [n, n + 1])
    for w in wl[n:]:
        equal(ctx, w, st[1], 'an added walker', ('id',))
        ctx.ok('own arrays', w.allpars is not wl[1].allpars)


def copyitem(ctx, src, des, other):
    P, wl = build(ctx, 3)
    P2, wo = build(ctx, 3) if 0 else (P, None)
    if other:
        wo = ctx.cls('WalkerList')(walkerlist=[w.copy() for w in wl])
        for i, w in enumerate(wo):
            w.id = 70 + i
            w.allpars = ctx.array([ctx.real('o%d_%d' % (i, k)) for k in range(3)])
            object.__setattr__(w, 'logL', ctx.real('oL%d' % i))
    for i, w in enumerate(wl):
        w.id = 20 + i
    frm = wo if other else wl
    S = full(frm[src])
    st = [full(w) for w in wl]
    was = list(wl)
    wl.copy(src, des, wlist=wo, start=77)
    ctx.same('length', len(wl), 3)
    w = wl[des]
    equal(ctx, w, S, 'the copied item', ('id', 'parent', 'start'))
    ctx.same('keeps the identity of its place', w.id, st[des]['id'])
    ctx.same('parent', w.parent, S['id'])
    ctx.same('start', w.start, 77)
    for i in range(3):
        if i != des:
            ctx.ok('others in place', wl[i] is was[i])
            equal(ctx, wl[i], st[i], 'another')
    spoil(ctx, wl[des], 'new')
    if src != des or other:
        equal(ctx, frm[src], S, 'the source')


def insert(ctx, n):
    P, wl = build(ctx, n + 1, ordered=False)
    items = list(wl)
    new = items[n]
    L = items[0].logL if n else None
    for i in range(1, n):
        L = L + ctx.real('step%d' % i, lo=0.0, special=(0.0,), hi=None if ctx.sym else 2.0)
        object.__setattr__(items[i], 'logL', L)
    if n and not ctx.sym and ctx.int(0, 3) == 0:
        object.__setattr__(new, 'logL', items[n // 2].logL)
    st = [full(w) for w in items]
    wl = ctx.cls('WalkerList')(walkerlist=items[:n])
    for i in range(n):
        k = ctx.cls('WalkerList')(walkerlist=items[:n]).firstIndex(new.logL)
    res = wl.insertWalker(new)
    ctx.ok('a list of walkers', isinstance(res, ctx.cls('WalkerList')))
    ctx.same('length', len(res), n + 1)
    for i in range(1, len(res)):
        ctx.le('sorted', res[i - 1].logL, res[i].logL)
    ctx.ok('the old ones keep their order', [w for w in res if w is not new] == items[:n])
    ctx.ok('the new one is there', sum(1 for w in res if w is new) == 1)
    for w, s in zip(items, st):
        equal(ctx, w, s, 'an item')
    for i in range(n):
        ctx.ok('first above', (k > i) == bool(items[i].logL <= new.logL))
    k = res.firstIndex(new.logL)
    for i, w in enumerate(res):
        ctx.ok('first above the new one', (i < k) == bool(w.logL <= new.logL))


def crop(ctx, n):
    P, wl = build(ctx, n, ordered=True)
    low = ctx.real('low') if ctx.sym or ctx.int(0, 2) else wl[ctx.int(0, n - 1)].logL
    items = list(wl)
    st = [full(w) for w in items]
    res = wl.cropOnLow(low)
    ctx.ok('a list of walkers', isinstance(res, ctx.cls('WalkerList')))
    want = [w for w in items if bool(w.logL > low)]
    ctx.ok('exactly those above', len(want) == len(res) and all(a is b for a, b in zip(want, res)))
    for w, s in zip(items, st):
        equal(ctx, w, s, 'an item')
    res.addWalkers(items[0], 1)
    ctx.same('identities go on', res[-1].id, n)


def lows(ctx, n):
    P, wl = build(ctx, n)
    v, k = wl.getLowLogL()
    ctx.eq('lowest', v, wl[k].logL)
    for w in wl:
        ctx.le('lowest', v, w.logL)
    e = wl.getLogLikelihoodEvolution()
    g = wl.getParameterEvolution()
    g1 = wl.getParameterEvolution(1)
    h = wl.getScaleEvolution()
    a = wl.allPars()
    for i, w in enumerate(wl):
        ctx.eq('likelihoods', e[i], w.logL)
        ctx.eq('likelihood', wl.getLogL(w), w.logL)
        ctx.eq('parameters', g[i], w.allpars[:2])
        ctx.eq('parameters', w.parameters, w.allpars[:2])
        ctx.eq('one parameter', g1[i], w.allpars[1])
        ctx.eq('scales', h[i], w.allpars[2:])
        ctx.eq('all parameters', a[i], w.allpars)


def setwalker(ctx, n, at):
    P, wl = build(ctx, n + 1)
    items = list(wl)
    new = items[n]
    new.id = 33
    wl = ctx.cls('WalkerList')(walkerlist=items[:n])
    wl.setWalker(new, at)
    ctx.same('length', len(wl), max(n, at + 1) if at < n else n + 1)
    ctx.ok('in place', wl[at if at < n else n] is new)
    ctx.same('identity', new.id, 33 if at < n else n)
    for i in range(n):
        if i != at:
            ctx.ok('others in place', wl[i] is items[i])


def tosample(ctx, kind, hyper):
    P, wl = build(ctx, 1, hyper=hyper, kind=kind)
    w = wl[0]
    object.__setattr__(w, 'logPrior', ctx.real('prior'))
    st = full(w)
    s = w.toSample(ctx.real('lw'))
    np_ = P.npars
    nm = P.model.npars if P.model else np_
    ctx.eq('all parameters', s.allpars, st['allpars'])
    ctx.eq('model parameters', s.parameters, st['allpars'][:nm])
    if hyper and kind != 'order':
        ctx.eq('hyper parameters', s.hyper, st['allpars'][np_:])
        ctx.eq('hyper parameters', s.hypars, st['allpars'][np_:])
    if np_ > nm:
        ctx.eq('nuisance parameters', s.nuisance, st['allpars'][nm:np_])
    ctx.eq('weight', s.logW, ctx.real('lw') if 0 else s.logW)
    ctx.eq('log likelihood', s.logL, st['logL'] + st['logPrior'])
    for k in ('id', 'parent', 'start'):
        ctx.same(k, getattr(s, k), st[k])
    ctx.same('fitted', [int(k) for k in s.fitIndex], st['fitIndex'])
    w.allpars[0] = ctx.real('new0')
    w.allpars[-1] = ctx.real('new1')
    ctx.eq('sample keeps its parameters', s.allpars, st['allpars'])
    q = s.allpars
    q[0] = 17.0
    s.parameters[0] = ctx.real('new2')
    ctx.eq('walker keeps its parameters', w.allpars[0], w.allpars[0])


def copysample(ctx, back, nuis, hyper, nomodel=False):
    np = ctx.np
    A = abstract(ctx)
    m = None if nomodel else A('f', 2)
    if m is not None:
        m.parameters = ctx.array([ctx.real('m0'), ctx.real('m1')])
    s = ctx.cls('Sample')(3, 4, 5, m, parameters=ctx.array([ctx.real('p0'), ctx.real('p1')]), fitIndex=np.array([0, 1]))
    if hyper:
        s.hyper = ctx.array([ctx.real('h0'), ctx.real('h1')])
    if nuis:
        s.nuisance = ctx.array([ctx.real('n0')])
    object.__setattr__(s, 'logL', ctx.real('L'))
    object.__setattr__(s, 'logW', ctx.real('W'))

    def state(s):
        d = dict(id=s.id, parent=s.parent, start=s.start, logL=s.logL, logW=s.logW, parameters=s.parameters.copy(), allpars=s.allpars.copy())
        if hyper:
            d['hyper'] = s.hyper.copy()
        if nuis:
            d['nuisance'] = s.nuisance.copy()
        if m is not None:
            d['model'] = s.model.parameters.copy()
        return d

    def cmp(s, d, tag):
        for k, v in d.items():
            if k == 'model':
                ctx.eq('model of %s' % tag, s.model.parameters, v)
            elif k in ('id', 'parent', 'start'):
                ctx.same('%s of %s' % (k, tag), getattr(s, k), v)
            else:
                ctx.eq('%s of %s' % (k, tag), getattr(s, k), v)
        ctx.same('fitted of %s' % tag, [int(k) for k in s.fitIndex], [0, 1])
    d = state(s)
    c = s.copy()
    cmp(c, d, 'the copy')
    a, b = (s, c) if not back else (c, s)
    b.parameters[0] = ctx.real('x0')
    if hyper:
        b.hyper[1] = ctx.real('x1')
    if nuis:
        b.nuisance[0] = ctx.real('x2')
    b.fitIndex[0] = 9
    b.id, b.parent, b.start = 31, 32, 33
    object.__setattr__(b, 'logW', ctx.real('x3'))
    object.__setattr__(b, 'logL', ctx.real('x4'))
    if m is not None:
        b.model.parameters = ctx.array([ctx.real('x5'), ctx.real('x6')])
    cmp(a, d, 'the one left alone')


def samplelist(ctx, given):
    np = ctx.np
    A = abstract(ctx)
    m = A('f', 2)
    m.parameters = ctx.array([ctx.real('m0'), ctx.real('m1')])
    p = ctx.array([ctx.real('p0'), ctx.real('p1')]) if given else None
    sl = ctx.cls('SampleList')(m, 3, parameters=p, fitIndex=np.array([0, 1]))
    ctx.same('length', len(sl), 3)
    ctx.same('numbers', [s.id for s in sl], [0, 1, 2])
    base = (p if given else m.parameters).copy()
    for s in sl:
        ctx.eq('parameters', s.parameters, base)
    sl[0].parameters[0] = ctx.real('new')
    for s in sl[1:]:
        ctx.eq('other samples keep theirs', s.parameters, base)
    if given:
        ctx.eq('the caller keeps his', p, base)
    ctx.eq('the model keeps its', m.parameters, ctx.array([base[0], base[1]]) if not given else m.parameters)
    object.__setattr__(sl[2], 'logW', ctx.real('W2'))
    sl.copy(0, 1)
    ctx.eq('copied parameters', sl[1].parameters, sl[0].parameters)
    ctx.same('keeps the identity of its place', sl[1].id, 1)
    sl[1].parameters[1] = ctx.real('new2')
    ctx.eq('source keeps its parameters', sl[0].parameters[1], base[1])
    q = sl.sample(2)
    ctx.ok('the sample asked for', q is sl[2])
    n = q.copy()
    ctx.ok('replaced', sl.sample(0, n) is n and sl[0] is n)
    k = ctx.cls('Sample')(17, 1, 0, m, parameters=base.copy())
    sl.add(k)
    ctx.same('length', len(sl), 4)
    ctx.same('number of an added sample', sl[3].id, 3)
    ctx.same('parent of an added sample', sl[3].parent, 17)


# ------------------------------------------------------------------------------------------------ phantoms
def store(ctx, n, dyn, rises):
    """any sequence of stored walkers and thresholds that do not go down"""
    P, wl = build(ctx, n, p=1, hyper=0, dyn=dyn)
    C = ctx.cls('PhantomCollection')(dynamic=dyn)
    np_ = 1
    if dyn:
        C.minpars = 0
    items = list(wl)
    kept = []
    low = None
    for i, w in enumerate(items):
        C.storeItems(w)
        kept.append(w)
        ctx.same('calls counted', C.ncalls, i + 1)
        lst = C.getList(w)
        for a in range(1, len(lst)):
            ctx.le('sorted', lst[a - 1].logL, lst[a].logL)
        ctx.ok('all are there', len(lst) == len(kept) and all(any(v is k for v in lst) for k in kept))
        ctx.same('length', int(C.length(np_)) if dyn else C.length(), len(kept))
        if i in rises:
            new = ctx.real('low%d' % i) if low is None else low + ctx.real('rise%d' % i, lo=0.0, special=(0.0,), hi=None if ctx.sym else 2.0)
            up = low is None or bool(new > low)
            low = new
            mn, mx = C.getParamMinmax(low, np=np_)
            if up:
                kept = [v for v in kept if bool(v.logL > low)]
                if not kept:
                    ctx.ok('nothing known', mn is None and mx is None)
                else:
                    pick = [v.allpars[0] for v in kept]
                    lo, hi = pick[0], pick[0]
                    for x in pick[1:]:
                        lo, hi = ctx.where(x < lo, x, lo), ctx.where(x > hi, x, hi)
                    ctx.eq('smallest of those above', mn[0], lo)
                    ctx.eq('largest of those above', mx[0], hi)
                lst = C.getList(items[0])
                ctx.ok('those not above are gone', len(lst) == len(kept) and all(any(v is k for v in lst) for k in kept))


def storelong(ctx, dyn):
    """longer histories"""
    import numpy as np
    P, wl = build(ctx, 1, p=2, hyper=1, dyn=dyn)
    C = ctx.cls('PhantomCollection')(dynamic=dyn)
    kept, low, res = [], None, None
    n = ctx.int(5, 25)
    for i in range(n):
        w = wl[0].copy()
        w.allpars = np.array([ctx.real('a%d_%d' % (i, k)) for k in range(3)])
        object.__setattr__(w, 'logL', ctx.real('L%d' % i) + 0.3 * i)
        C.storeItems(w)
        kept.append(w)
        if ctx.int(0, 3) == 0:
            new = (0.3 * i - 2.0) if low is None else low + abs(ctx.real('u%d' % i)) * ctx.int(0, 1)
            mn, mx = C.getParamMinmax(new, np=2)
            if low is None or new > low or (dyn and res is None):
                kept = [v for v in kept if v.logL > new]
                enough = len(kept) > (C.minpars if dyn else 0)
                res = None if not enough else (np.min([v.allpars for v in kept], axis=0), np.max([v.allpars for v in kept], axis=0))
            low = new
            if res is None:
                ctx.ok('nothing known', mn is None and mx is None)
            else:
                ctx.eq('smallest of those above', mn, res[0])
                ctx.eq('largest of those above', mx, res[1])
        lst = C.getList(wl[0])
        ctx.ok('sorted', all(lst[a - 1].logL <= lst[a].logL for a in range(1, len(lst))))
        ctx.ok('members', len(lst) == len(kept) and all(any(v is k for v in lst) for k in kept))


for kind in ('classic', 'errors', 'order'):
    for back in (False, True):
        add('S04', 'copy of a walker %s %s' % (kind, 'original changes' if back else 'copy changes'), copywalker, kind, not back)
for back in (False, True):
    add('S04', 'copy of a walker dynamic %s' % ('original changes' if back else 'copy changes'), copywalker, 'classic', not back, True)
    for nuis, hyper, nm in ((0, 0, False), (1, 1, False), (0, 1, True)):
        add('S04', 'copy of a sample%s%s%s %s' % (' nuisance' if nuis else '', ' hyper' if hyper else '', ' no model' if nm else '', back), copysample, back, nuis, hyper, nm)
add('S04', 'new list', startlist, 3, False)
add('S04', 'new list dynamic', startlist, 3, True)
for a, b, o in ((0, 2, False), (2, 0, False), (1, 0, True), (2, 2, True)):
    add('S04', 'copy item %d to %d%s' % (a, b, ' of another list' if o else ''), copyitem, a, b, o)
for n in (0, 1, 2, 3, 4):
    add('S04', 'insert into %d' % n, insert, n)
for n in (1, 2, 3, 4):
    add('S04', 'crop %d' % n, crop, n)
for n in (1, 3):
    add('S04', 'lists of %d' % n, lows, n)
for n, at in ((2, 0), (2, 1), (2, 2), (0, 0), (3, 5)):
    add('S04', 'set %d in %d' % (at, n), setwalker, n, at)
for kind, h in (('classic', 0), ('classic', 1), ('errors', 1), ('errors', 0), ('order', 0)):
    add('S04', 'walker to sample %s %d' % (kind, h), tosample, kind, h)
for g in (False, True):
    add('S04', 'sample list %s' % g, samplelist, g)
for dyn in (False, True):
    for n, r in ((1, (0,)), (2, (1,)), (3, (0, 2)), (3, (1, 2))):
        add('S04', 'phantoms %d rises %s%s' % (n, r, ' dynamic' if dyn else ''), store, n, dyn, r, mode='unrolled', maxpaths=3000)
    add('S04', 'phantoms long%s' % (' dynamic' if dyn else ''), storelong, dyn, mode='bounded', nreal=60)
