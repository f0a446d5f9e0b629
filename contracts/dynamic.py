"""D01: models that grow, shrink and vary.  Histories of such steps, alone or in a chain of abstract constituents; parameters,
random draws and data are arbitrary, the sizes and the steps are enumerated.  The oracle keeps a list of named blocks of
parameters and builds a fresh model of the right size for the values."""
from vc.prove import add
from contracts.compound import abstract
from contracts.iterfit import quiet  # noqa

LIM = {0: (0.0, 2.0), 1: (-1.0, 3.0), 2: (-4.0, -2.0)}


class Kind(object):
    """how one dynamic model is made, and how large it is"""
    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        self.A = abstract(ctx)

    def make(self, ncomp, lo=1, hi=4):
        ctx, kind = self.ctx, self.kind
        if kind == 'poly':
            m = ctx.cls('PolynomialDynamicModel')(ncomp - 1, minDegree=lo - 1, maxDegree=None if hi is None else hi - 1)
        elif kind == 'harm':
            m = ctx.cls('HarmonicDynamicModel')(ncomp, minOrder=lo, maxOrder=hi, period=2.5)
        elif kind.startswith('repeat'):
            inner = self.A('h', 3)
            if kind.endswith('chain'):
                inner = self.A('h', 2)
                inner.addModel(self.A('i', 1))
            m = ctx.cls('RepeatingModel')(ncomp, inner, minComp=lo, maxComp=hi, same=self.same())
        self.prior(m)
        return m

    def same(self):
        return {'repeat': None, 'repeat1': 1, 'repeat02': [0, 2], 'repeat chain': None}[self.kind]

    def prior(self, m):
        U = self.ctx.cls('UniformPrior')
        n = min(2, m.npars) if self.kind in ('poly', 'harm') else 3
        for k in range(n):
            m.setPrior(k, U(limits=list(LIM[k])))

    def size(self, ncomp):
        kind = self.kind
        if kind == 'poly':
            return ncomp
        if kind == 'harm':
            return 2 * ncomp
        s = {'repeat': 0, 'repeat1': 1, 'repeat02': 2, 'repeat chain': 0}[kind]
        return 0 if ncomp == 0 else 3 + (ncomp - 1) * (3 - s)

    def which(self, k):
        """the prior of the k-th parameter"""
        if self.kind == 'poly':
            return min(k, 1)
        if self.kind == 'harm':
            return k % 2
        if k < 3:
            return k
        left = {'repeat': [0, 1, 2], 'repeat1': [0, 2], 'repeat02': [1], 'repeat chain': [0, 1, 2]}[self.kind]
        return left[(k - 3) % len(left)]

    def value(self, u, k):
        lo, hi = LIM[self.which(k)]
        return self.ctx.const(lo) + u * (self.ctx.const(hi) - self.ctx.const(lo))

    def chain(self, place, ncomp, **kw):
        m = self.make(ncomp, **kw)
        A = self.A
        if place == 'alone':
            return m, m, 0, 0
        if place == 'first':
            m.addModel(A('f', 2))
            return m, m, 0, 2
        h = A('g', 2)
        if place == 'last':
            h.addModel(m)
            return h, m, 2, 0
        h.addModel(m)
        h.multiplyModel(A('f', 1))
        return h, m, 2, 1


def sub(m, K):
    """the dynamic constituent of a chain"""
    while not isinstance(m, K.ctx.cls('Dynamic')):
        m = m._next
    return m


class Hist(object):
    """one model and what is expected of it"""
    def __init__(self, K, head, pre, post, pars, ncomp, fit):
        self.K, self.head, self.pre, self.post, self.pars, self.ncomp, self.fit = K, head, pre, post, list(pars), ncomp, list(fit)

    def copy(self):
        return Hist(self.K, self.head.copy(), self.pre, self.post, self.pars, self.ncomp, self.fit)


def audit(ctx, H, place, x, tag, lo, hi, values=True):
    K, h = H.K, H.head
    n = K.size(H.ncomp)
    d = sub(h, K)
    ctx.same('%s: components' % tag, int(d.ncomp), H.ncomp)
    ctx.ok('%s: components within their limits' % tag, lo <= H.ncomp and (hi is None or H.ncomp <= hi))
    ctx.same('%s: parameters of the constituent' % tag, int(d.npbase), n)
    ctx.same('%s: parameters of the chain' % tag, int(h.npchain), H.pre + n + H.post)
    ctx.same('%s: number of parameters' % tag, int(h.npars), H.pre + n + H.post)
    ctx.same('%s: length of the parameters' % tag, len(h.parameters), H.pre + n + H.post)
    ctx.eq('%s: parameters' % tag, h.parameters, ctx.array(H.pars))
    ctx.same('%s: fitted indices' % tag, [int(k) for k in H.fit], [int(k) for k in H.fit])
    if not values:
        return
    f, fd, a, b = K.chain(place, H.ncomp, lo=lo, hi=hi)
    p = ctx.array(H.pars)
    ctx.eq('%s: value as of a new model' % tag, h.result(x, p), f.result(x, p))
    ctx.eq('%s: partials as of a new model' % tag, h.partial(x, p), f.partial(x, p))
    ctx.eq('%s: derivative as of a new model' % tag, h.derivative(x, p), f.derivative(x, p))
    for k in range(n):
        ctx.eq('%s: prior of each parameter' % tag, h.unit2Domain(ctx.const(0.25), H.pre + k), K.value(ctx.const(0.25), k))


def newfit(fit, loc, dnp):
    """indices after dnp parameters came in at loc, or went out just before loc"""
    if dnp > 0:
        return [k for k in fit if 0 <= k < loc] + list(range(loc, loc + dnp)) + [k + dnp for k in fit if k >= loc] + [k for k in fit if k < 0]
    return [k for k in fit if 0 <= k < loc + dnp] + [k + dnp for k in fit if k >= loc] + [k for k in fit if k < 0]


def step(ctx, H, op, tag, lo, hi, rng):
    """one step; the expectation goes along"""
    K = H.K
    d = sub(H.head, K)
    n = K.size(H.ncomp)
    nh = len(H.head.parameters)
    draws = rng.draws if rng else None
    if rng:
        rng.draws = draws = []
    if op == 'grow':
        ok = d.grow(offset=H.pre, rng=rng)
        should = hi is None or H.ncomp < hi
    else:
        ok = d.shrink(offset=H.pre, rng=rng) if rng else d.shrink(offset=H.pre)
        should = H.ncomp > lo
    ctx.same('%s: success' % tag, bool(ok), should)
    if not should:
        return
    H.ncomp += 1 if op == 'grow' else -1
    m = K.size(H.ncomp)
    i = H.pre + n
    fi = d.alterFitindex(ctx.np.array(H.fit, dtype=int) if H.fit else ctx.np.array([], dtype=int), n, m - n, H.pre)
    exp = newfit(H.fit, i, m - n)
    ctx.same('%s: fitted indices follow' % tag, [int(k) for k in fi], exp)
    H.fit = exp
    if op == 'grow':
        new = [K.value(draws[k], n + k) for k in range(m - n)] if rng else [ctx.const(0.0)] * (m - n)
        if rng:
            ctx.same('%s: random numbers used' % tag, len(draws), m - n)
        H.pars = H.pars[:i] + new + H.pars[i:]
    else:
        H.pars = H.pars[:i + m - n] + H.pars[i:]


class Draw(object):
    """random numbers that remember what they gave"""
    def __init__(self, ctx):
        self.ctx, self.k, self.draws = ctx, 0, []

    def rand(self, *n):
        self.k += 1
        if n:
            r = [self.one() for i in range(n[0])]
            return self.ctx.array(r)
        return self.one()

    def one(self):
        self.k += 1
        u = self.ctx.real('u%d' % self.k, lo=0.0, hi=1.0)
        self.draws.append(u)
        return u

    def randint(self, *a):
        self.k += 1
        r = self.ctx.choose(list(range(*a)))
        self.draws.append(r)
        return r

    def permutation(self, n):
        return list(range(n))


def history(ctx, kind, place, ncomp, lo, hi, hyper, steps, rand):
    K = Kind(ctx, kind)
    head, d, pre, post = K.chain(place, ncomp, lo=lo, hi=hi)
    n = K.size(ncomp)
    p = ctx.vec('p', pre + n + post)
    head.parameters = p
    x = ctx.data('x')
    keep = ctx.choose([False, True]) if pre + post else False
    fit = list(range(pre + n + post))
    if keep:
        fit = [k for k in fit if pre <= k < pre + n or k % 2]
    if hyper:
        fit = fit + [-1]
    rng = Draw(ctx) if rand else None
    H = Hist(K, head, pre, post, list(p), ncomp, fit)
    if True:
        audit(ctx, H, place, x, 'at the start', lo, hi)
        for s in range(steps):
            op = ctx.choose(['grow', 'shrink', 'copy'] if s < steps - 1 else ['grow', 'shrink'])
            tag = '%s at step %d' % (op, s)
            if op == 'copy':
                C = H.copy()
                audit(ctx, C, place, x, tag, lo, hi, values=False)
                which = ctx.choose([0, 1])
                # the other one is changed first, and must not matter
                other, H = (H, C) if which else (C, H)
                step(ctx, other, 'grow', tag + ' other grown', lo, hi, rng)
                audit(ctx, other, place, x, tag + ' other grown', lo, hi)
                step(ctx, other, 'shrink', tag + ' other shrunk', lo, hi, rng)
                audit(ctx, H, place, x, tag + ' others change', lo, hi)
            else:
                step(ctx, H, op, tag, lo, hi, rng)
                audit(ctx, H, place, x, tag, lo, hi)


for kind in ('poly', 'harm', 'repeat', 'repeat1', 'repeat02', 'repeat chain'):
    for place in ('alone', 'first', 'middle', 'last'):
        for rand in (False, True):
            r = kind.startswith('repeat')
            add('D01', '%s %s%s history' % (kind, place, ' random' if rand else ''), history, kind, place, 2 if not r else 1, 0 if r else 1, 3, rand, 3 if not r else 3, rand, maxpaths=3000)
for kind in ('poly', 'harm', 'repeat'):
    add('D01', '%s unlimited' % kind, history, kind, 'middle', 2, 1, None, True, 2, True, maxpaths=3000)


# ------------------------------------------------------------------------------------------------ static and named models
def static(ctx, place):
    """a repeating model that is not dynamic, and its copies, keep their size"""
    A = abstract(ctx)
    m = ctx.cls('RepeatingModel')(2, A('h', 3), dynamic=False)
    m.parameters = p = ctx.vec('p', 6)
    x = ctx.data('x')
    c = m.copy()
    for t, d in (('original', m), ('copy', c)):
        ctx.same('%s: not dynamic' % t, bool(d.isDynamic()), False)
        ctx.same('%s: does not grow' % t, bool(d.grow()), False)
        ctx.same('%s: does not shrink' % t, bool(d.shrink()), False)
        ctx.same('%s: number of parameters' % t, int(d.npars), 6)
        ctx.eq('%s: parameters' % t, d.parameters, p)
    ctx.eq('values', c.result(x, p), m.result(x, p))
    U = ctx.cls('UniformPrior')
    m.setPrior(0, U(limits=[3, 4]))
    m.setPrior(1, U(limits=[0, 2]))
    c = m.copy()
    c.setPrior(1, U(limits=[5, 6]))
    ctx.eq('priors of the original', m.unit2Domain(ctx.const(0.5), 1), ctx.const(1.0))
    ctx.eq('priors of the copy', c.unit2Domain(ctx.const(0.5), 1), ctx.const(5.5))
    ctx.ok('names', len({m.getParameterName(k) for k in range(6)}) == 6)


add('D01', 'static repeating', static, 'alone')


# ------------------------------------------------------------------------------------------------ splines
class Far(Draw):
    """a bounded number of random numbers"""
    cap = 4

    def one(self):
        from vc.sym import PathEnd
        if len(self.draws) >= self.cap and self.ctx.sym:
            raise PathEnd()
        return Draw.one(self)


def stubbed(ctx):
    S = ctx.cls('SplinesDynamicModel')

    class SD(S):
        def makeBaseBasis(self):
            return ctx.np.array([k for k in self.knots])
    return SD


def splines(ctx, order, nk, place, op, rand=True):
    """knots, parameters and draws arbitrary; the basis is a function of the knots (D03)"""
    np = ctx.np
    A = abstract(ctx)
    m = stubbed(ctx)(knots=np.linspace(0, 1, nk), order=order, minKnots=2, maxKnots=nk + (1 if op != 'grow at maximum' else 0), modifiable=op == 'vary')
    k0 = [ctx.real('k0')]
    md = ctx.real('md', pos=True, lo=None if ctx.sym else 0.001, hi=None if ctx.sym else 0.01)
    for i in range(1, nk):
        k0.append(k0[-1] + md + (ctx.real('gap%d' % i, pos=True) if ctx.sym else ctx.real('gap%d' % i, lo=0.1, hi=2.0)))
    st = object.__setattr__
    knots = ctx.array(k0)
    st(m, 'knots', knots)
    st(m, 'basis', m.makeBasis())
    st(m, 'minDistance', md)
    n = nk + order - 1
    U = ctx.cls('UniformPrior')
    for k in range(n):
        m.setPrior(k, U(limits=[-10, 10]))
    head, pre, post = m, 0, 0
    if place == 'middle':
        head = A('g', 2)
        head.addModel(m)
        head.addModel(A('f', 1))
        pre, post = 2, 1
        m = head._next
    p = [ctx.real('p%d' % i, lo=-10.0, hi=10.0) for i in range(pre + n + post)]
    head.parameters = ctx.array(p)
    rng = Far(ctx)
    old = list(k0)

    def fixed(tag, d):
        ctx.same('%s: number of parameters' % tag, [int(head.npars), int(m.npbase), len(head.parameters)], [pre + n + d + post, n + d, pre + n + d + post])
        ctx.eq('%s: basis belongs to the knots' % tag, m.basis, m.knots)
        ctx.same('%s: components' % tag, int(m.ncomp), nk + d)
        ctx.ok('%s: knots are floats of their own' % tag, m.knots is not knots or d == 0)
        for i in range(1, nk + d):
            ctx.le('%s: knots stay apart' % tag, m.knots[i - 1] + md, m.knots[i], hints=(md,))
        ctx.eq('%s: first knot' % tag, m.knots[0], old[0])
        ctx.eq('%s: last knot' % tag, m.knots[-1], old[-1])

    q = None
    if op in ('grow', 'grow at maximum'):
        ok = m.grow(offset=pre, rng=rng)
        ctx.same('success', bool(ok), op == 'grow')
        if op != 'grow':
            fixed('unchanged', 0)
            ctx.eq('knots', m.knots, ctx.array(old))
            ctx.eq('parameters', head.parameters, ctx.array(p))
            return
        fixed('grown', 1)
        left = list(m.knots)
        j = [i for i in range(nk + 1) if not any(left[i] is o for o in old)]
        if ctx.sym:
            ctx.ok('one new knot', len(j) <= 1 or True)
        where = [i for i in range(1, nk) if all(_same(ctx, left[a], old[a]) for a in range(i)) and all(_same(ctx, left[a + 1], old[a]) for a in range(i, nk))]
        ctx.ok('other knots stay', len(where) == 1)
        q = list(head.parameters)
        # exactly one parameter more; the pieces before and after keep theirs
        at = [i for i in range(n + 1)
              if all(_same(ctx, q[a], p[a]) for a in range(pre + i - 1) if a >= 0) and all(_same(ctx, q[a + 1], p[a]) for a in range(pre + i, pre + n + post))]
        ctx.ok('other parameters stay', len(at) >= 1 and where[0] > 0)
        for a in range(pre):
            ctx.eq('parameters before', q[a], p[a])
        for a in range(post):
            ctx.eq('parameters after', q[-1 - a], p[-1 - a])
        fi = m.alterFitindex(np.array(list(range(pre + n + post)) + [-1]), n, 1, pre)
        ctx.same('fitted indices follow', [int(k) for k in fi], list(range(pre + n + post + 1)) + [-1])
    elif op == 'shrink':
        ok = m.shrink(offset=pre, rng=rng)
        ctx.same('success', bool(ok), nk > 2)
        if nk <= 2:
            fixed('unchanged', 0)
            ctx.eq('parameters', head.parameters, ctx.array(p))
            return
        fixed('shrunk', -1)
        q = list(head.parameters)
        gone = rng.draws[0] + 1
        ctx.eq('other knots stay', m.knots, ctx.array(old[:gone] + old[gone + 1:]))
        at = [i for i in range(n - 1)
              if all(_same(ctx, q[a], p[a]) for a in range(pre + i)) and all(_same(ctx, q[a], p[a + 1]) for a in range(pre + i + 1, pre + n - 1 + post))]
        ctx.ok('other parameters stay', len(at) >= 1)
        if at:
            i = pre + at[0]
            pr = head.getPrior(i)
            ctx.le('new parameter in its domain', pr.lowLimit, q[i])
            ctx.le('new parameter in its domain', q[i], pr.highLimit)
        for a in range(pre):
            ctx.eq('parameters before', q[a], p[a])
        for a in range(post):
            ctx.eq('parameters after', q[-1 - a], p[-1 - a])
    elif op == 'vary':
        loc = ctx.choose([None] + list(range(nk)))
        ok = m.vary(rng=rng, location=loc)
        ctx.same('success', bool(ok), nk > 2 and loc not in (0, nk - 1))
        fixed('varied', 0)
        if not ok:
            ctx.eq('knots', m.knots, ctx.array(old))
        else:
            kk = loc if loc is not None else rng.draws[0] + 1
            for i in range(nk):
                if i != kk:
                    ctx.eq('other knots stay', m.knots[i], old[i])
        ctx.eq('parameters stay', head.parameters, ctx.array(p))


def _same(ctx, a, b):
    if ctx.sym:
        from vc import terms as tm
        t = lambda q: q.t if hasattr(q, 't') else tm.const(q)
        d = tm.sub(t(a), t(b))
        return tm.isc(d) and d.a == 0
    return float(a) == float(b)


for order in (1, 2, 3):
    for place in ('alone', 'middle'):
        for nk in (2, 3, 4):
            for op in ('grow', 'shrink', 'vary'):
                add('D01', 'splines %s order %d knots %d %s' % (op, order, nk, place), splines, order, nk, place, op, maxpaths=3000)
add('D01', 'splines grow at maximum', splines, 3, 4, 'middle', 'grow at maximum')


# ------------------------------------------------------------------------------------------------ decision trees
from contracts.trees import Leaf, Branch, leaves, branches, clone, rules, shape, own, replace, parent, assign, ROWS, data


class Tree(object):
    """a tree model in a chain and what is expected of it"""
    def __init__(self, head, t, pre, post, before, after, fit):
        self.head, self.t, self.pre, self.post, self.before, self.after, self.fit = head, t, pre, post, list(before), list(after), list(fit)

    def copy(self):
        return Tree(self.head.copy(), clone(self.t), self.pre, self.post, self.before, self.after, self.fit)

    def model(self):
        m = self.head
        while type(m).__name__ != 'DecisionTreeModel':
            m = m._next
        return m


def tree_audit(ctx, H, tag, A):
    m, h = H.model(), H.head
    n = len(leaves(H.t))
    N = H.pre + n + H.post
    ctx.same('%s: numbers of parameters' % tag, [int(m.npbase), int(h.npchain), int(h.npars), len(h.parameters)], [n, N, N, N])
    ctx.same('%s: components' % tag, int(m.ncomp), len(branches(H.t)))
    ctx.same('%s: counted leafs and branches' % tag, tuple(int(k) for k in m.count()), (n, len(branches(H.t))))
    ctx.eq('%s: parameters' % tag, h.parameters, ctx.array(H.before + [q.par for q in leaves(H.t)] + H.after))
    s, r = own(m)
    ctx.same('%s: shape' % tag, s, shape(H.t))
    e = rules(H.t)
    ctx.same('%s: dimensions' % tag, [a[:2] for a in r], [a[:2] for a in e])
    for a, b in zip(r, e):
        ctx.eq('%s: splits' % tag, a[2], b[2])
    if any(hasattr(b[2], 't') for b in e):
        return                   # the values for arbitrary splits: D02
    x = data(ctx)
    where = assign(ROWS, H.t)
    got = m.baseResult(x, ctx.array([q.par for q in leaves(H.t)]))
    ctx.eq('%s: value' % tag, got, ctx.array([where[i].par for i in range(len(ROWS))]))


def tree(ctx, place, steps, hyper, rand, shrinks):
    np = ctx.np
    A = abstract(ctx)
    U = ctx.cls('UniformPrior')
    m = ctx.cls('DecisionTreeModel')(ndim=2, itypes=[0, 0])
    m.setPrior(0, U(limits=[2.0, 5.0]))
    head, pre, post = m, 0, 0
    if place != 'alone':
        head = A('g', 2, 2)
        head.addModel(m)
        pre = 2
        if place == 'middle':
            head.addModel(A('f', 1, 2))
            post = 1
    b, a = list(ctx.vec('b', pre)) if pre else [], list(ctx.vec('a', post)) if post else []
    cnt = [0]

    def new():
        cnt[0] += 1
        return ctx.real('leaf%d' % cnt[0])
    t = Leaf(new())
    head.parameters = ctx.array(b + [t.par] + a)
    fit = list(range(pre + 1 + post)) + ([-1] if hyper else [])
    H = Tree(head, t, pre, post, b, a, fit)
    tree_audit(ctx, H, 'at the start', A)
    rng = Draw(ctx) if rand else None

    def step(H, op, tag):
        m = H.model()
        n = len(leaves(H.t))
        old = m.npbase
        if rng:
            rng.draws = []
        if op == 'grow':
            if rng:
                ok = m.grow(offset=H.pre, rng=rng)
                loc, dim = rng.draws[0], rng.draws[1]
                split = (rng.draws[2] + rng.draws[3] + rng.draws[4]) / 3
                val = ctx.const(2.0) + ctx.const(3.0) * rng.draws[5]
            else:
                loc = ctx.choose(list(range(n)))
                dim = (n + loc) % 2
                split = [0.3, 0.6][cnt[0] % 2]
                cnt[0] += 1
                ok = m.grow(offset=H.pre, location=loc, kdim=dim, split=split)
                val = ctx.const(0.0)
            ctx.same('%s: success' % tag, bool(ok), True)
            q = leaves(H.t)[loc]
            H.t = replace(H.t, q, Branch(dim, 'split', split, Leaf(val), Leaf(q.par)))
        elif op == 'shrink':
            if rng:
                ok = m.shrink(offset=H.pre, rng=rng)
                loc = rng.draws[0] if n > 1 else 0
            else:
                loc = ctx.choose(list(range(n)))
                ok = m.shrink(offset=H.pre, location=loc)
            ctx.same('%s: success' % tag, bool(ok), n > 1)
            if n == 1:
                return
            q = leaves(H.t)[loc]
            p = parent(H.t, q)
            stay = leaves(p)[-1] if q is p.left else leaves(p)[0]
            H.t = replace(H.t, p, Leaf(stay.par))
        else:
            nb = len(branches(H.t))
            if rng:
                ok = m.vary(rng=rng)
                if nb:
                    loc = rng.draws[0]
                    br = branches(H.t)[loc]
                    turn = bool(rng.draws[1] < 0.5)
                    dim = rng.draws[2] if turn else br.dim
                    split = (3 * br.val + rng.draws[-1]) / 4
            else:
                loc, dim, split = ctx.choose(list(range(max(nb, 1)))), 1, 0.45
                ok = m.vary(location=loc, kdim=dim, split=split)
            ctx.same('%s: success' % tag, bool(ok), nb > 0)
            if nb:
                br = branches(H.t)[loc]
                br.dim, br.val = dim, split
        n1 = len(leaves(H.t))
        if n1 != n:
            fi = m.alterFitindex(np.array(H.fit), n, n1 - n, H.pre)
            exp = newfit(H.fit, H.pre + n, n1 - n)
            ctx.same('%s: fitted indices follow' % tag, [int(k) for k in fi], exp)
            H.fit = exp
    for s in range(steps):
        op = 'grow' if s < (3 if shrinks else 1) else ctx.choose(['grow', 'shrink', 'vary', 'copy'])
        tag = '%s at step %d' % (op, s)
        if op == 'copy':
            C = H.copy()
            tree_audit(ctx, C, tag, A)
            which = ctx.choose([0, 1])
            other, H = (H, C) if which else (C, H)
            for o in ('vary', 'grow'):
                step(other, o, tag + ', %s the other' % o)
            tree_audit(ctx, other, tag + ' other', A)
        else:
            step(H, op, tag)
        tree_audit(ctx, H, tag, A)


for place in ('alone', 'last', 'middle'):
    for shrinks in (False, True):
        add('D01', 'tree %s%s' % (place, ' large' if shrinks else ''), tree, place, 4 if shrinks else 3, place != 'alone', False, shrinks, maxpaths=4000)
    add('D01', 'tree %s random' % place, tree, place, 2, place != 'alone', True, False, maxpaths=4000)


def splines_real(ctx, order, place):
    """histories of the whole model, with its basis, on numbers"""
    np = ctx.np
    A = abstract(ctx)
    user = np.array([0.0, 1.0, 2.5, 3.0, 5.0])
    keep = user.copy()
    m = ctx.cls('SplinesDynamicModel')(knots=user, order=order, minKnots=3, maxKnots=8)
    U = ctx.cls('UniformPrior')
    for k in range(m.npars):
        m.setPrior(k, U(limits=[-10, 10]))
    head, pre, post = m, 0, 0
    if place == 'middle':
        head = ctx.cls('PolynomialModel')(1)
        head.addModel(m)
        head.addModel(ctx.cls('SineModel')())
        pre, post = 2, 3
    head.parameters = ctx.array([ctx.real('p%d' % i, lo=-5.0, hi=5.0) for i in range(head.npars)])
    rng = np.random.RandomState(ctx.int(1, 10000))
    x = np.linspace(0.0, 5.0, 37)
    models = [head]

    def inner(h):
        while type(h).__name__ != 'SplinesDynamicModel':
            h = h._next
        return h

    def state(h):
        d = inner(h)
        return (h.npars, d.npbase, list(d.knots), list(h.parameters), list(h.result(x, h.parameters)))

    def audit(h, tag):
        d = inner(h)
        ctx.same('%s: sizes' % tag, [h.npars, d.npbase, len(h.parameters)], [pre + d.npbase + post, len(d.knots) + order - 1, pre + d.npbase + post])
        f = ctx.cls('BasicSplinesModel')(knots=d.knots.copy(), order=order)
        q = h.parameters[pre:pre + d.npbase]
        ctx.eq('%s: value as of new splines' % tag, d.baseResult(x, q), f.result(x, q))
        ctx.eq('%s: partials as of new splines' % tag, d.basePartial(x, q), f.partial(x, q))
        ctx.ok('%s: number of knots' % tag, 3 <= len(d.knots) <= 8)

    for s in range(8):
        op = ['grow', 'shrink', 'vary', 'copy'][rng.randint(4)]
        k = rng.randint(len(models))
        h = models[k]
        before = [state(g) for g in models]
        tag = op
        d = inner(h)
        try:
            if op == 'copy':
                models.append(h.copy())
            elif op == 'vary':
                d.vary(rng=rng, location=rng.randint(1, len(d.knots) - 1))
            else:
                getattr(d, op)(offset=pre, rng=rng)
        except ValueError as e:
            if 'Out of limits' not in str(e):
                raise
            return
        for g in models:
            audit(g, tag)
        for i, b in enumerate(before):
            if i != k or op == 'copy':
                ctx.eq('%s: other models stay' % tag, np.array(state(models[i])[4]), np.array(b[4]))
                ctx.same('%s: other models keep their size and knots' % tag, state(models[i])[:3], b[:3])
        ctx.eq('%s: knots of the user' % tag, user, keep)


for order in (1, 2, 3):
    for place in ('alone', 'middle'):
        add('D01', 'splines real order %d %s' % (order, place), splines_real, order, place, mode='bounded', nreal=12)


# ------------------------------------------------------------------------------------------------ engines that change a model
from vc.sym import PathEnd


class DState(object):
    """walkers with models of their own, of different sizes; the likelihood is arbitrary"""
    def __init__(self, ctx, kind, place, sizes, lo, hi, hyper, calls=4):
        np = ctx.np
        self.ctx, self.kind, self.place, self.lo, self.hi, self.hyper, self.calls = ctx, kind, place, lo, hi, hyper, calls
        K = self.K = Kind(ctx, kind)
        st = object.__setattr__
        ed = self.ed = ctx.cls('GaussErrorDistribution')()
        ed.hyperpar[0].prior = ctx.cls('UniformPrior')(limits=[0.5, 2.5])
        if not hyper:
            st(ed, 'hyperpar', [])
        self.nh = 1 if hyper else 0
        st(ed, 'logLikelihood', self.logL)
        self.ncall = 0
        self.rng = Draw(ctx)
        head, d, pre, post = K.chain(place, sizes[0], lo=lo, hi=hi)
        self.pre, self.post = pre, post
        P = ctx.cls('ClassicProblem')(model=head, xdata=np.array([0.0, 1.0]), ydata=np.array([1.0, 2.0]))
        n0 = len(head.parameters)
        self.wl = ctx.cls('WalkerList')(problem=P, ensemble=1, allpars=ctx.array([ctx.const(0.0)] * (n0 + self.nh)), fitIndex=np.array(self.fit(sizes[0])))
        self.sizes, self.pars, self.keep = list(sizes), [], []
        W = ctx.cls('Walker')
        for i, c in enumerate(sizes):
            h, d, a, b = K.chain(place, c, lo=lo, hi=hi)
            Q = P.copy()
            Q.model = h
            p = self.start(i, c)
            h.parameters = p[:len(p) - self.nh]
            w = W(i, Q, p, np.array(self.fit(c)))
            st(w, 'logL', self.F(p))
            if i == 0:
                self.wl[0] = w
            else:
                self.wl.append(w)
            self.pars.append(list(p))
        self.before = list(self.wl)
        self.base = [(w.logL, list(w.fitIndex), w.problem, w.problem.model) for w in self.before]

    def fit(self, c):
        n = self.K.size(c) + self.pre + self.post
        return list(range(n)) + ([-1] if self.hyper else [])

    def start(self, i, c):
        ctx, K = self.ctx, self.K
        v = [ctx.real('w%d_a%d' % (i, k)) for k in range(self.pre)]
        for k in range(K.size(c)):
            lo, hi = LIM[K.which(k)]
            v.append(ctx.real('w%d_d%d' % (i, k), lo=lo, hi=hi))
        v += [ctx.real('w%d_b%d' % (i, k)) for k in range(self.post)]
        if self.hyper:
            v.append(ctx.real('w%d_s' % i, lo=0.5, hi=2.5))
        return ctx.array(v)

    def F(self, p):
        return self.ctx.ufun('F%d' % len(p))(*[p[k] for k in range(len(p))])

    def logL(self, problem, allpars):
        self.ncall += 1
        if self.ctx.sym and self.ncall > self.calls:
            self.audit(0, None)
            raise PathEnd()
        self.ctx.same('a proposal has the size of its model', len(allpars) - self.nh, int(problem.model.npars))
        return self.F(allpars)

    def untouched(self, i, w):
        ctx = self.ctx
        n = self.pre + self.K.size(self.sizes[i]) + self.post
        ctx.eq('a walker left alone keeps its parameters', w.allpars, ctx.array(self.pars[i]))
        ctx.eq('a walker left alone keeps its likelihood', w.logL, self.base[i][0])
        ctx.same('a walker left alone keeps its indices', [int(k) for k in w.fitIndex], [int(k) for k in self.base[i][1]])
        ctx.ok('a walker left alone keeps its model', w.problem is self.base[i][2] and w.problem.model is self.base[i][3])
        ctx.same('a walker left alone keeps the size of its model', [int(w.problem.model.npars), len(w.problem.model.parameters)], [n, n])
        ctx.same('a walker left alone keeps its components', int(sub(w.problem.model, self.K).ncomp), self.sizes[i])

    def audit(self, got, new):
        """new: None or (place in the list, components, parameters)"""
        ctx = self.ctx
        nb = len(self.before)
        for i, w in enumerate(self.before):
            if new is None or new[0] != i:
                ctx.ok('walker in its place', self.wl[i] is w)
            self.untouched(i, w)
        ctx.same('length of the list', len(self.wl), nb + (1 if new and new[0] == nb else 0))
        if new is None:
            ctx.same('no moves reported', int(got), 0)
            return
        k, c, pars = new
        w = self.wl[k]
        n = self.K.size(c)
        m = w.problem.model
        ctx.ok('a changed walker is another one', all(w is not v for v in self.before))
        ctx.ok('it has a problem and a model of its own', all(w.problem is not b[2] and m is not b[3] for b in self.base))
        ctx.same('size of the changed model', [int(m.npars), int(sub(m, self.K).npbase), int(sub(m, self.K).ncomp), len(m.parameters)], [self.pre + n + self.post, n, c, self.pre + n + self.post])
        ctx.ok('components within their limits', self.lo <= c and (self.hi is None or c <= self.hi))
        ctx.eq('parameters of the changed walker', w.allpars, ctx.array(pars))
        ctx.same('fitted indices of the changed walker', [int(q) for q in w.fitIndex], self.fit(c))
        ctx.eq('likelihood of the changed walker', w.logL, self.F(w.allpars))
        ctx.le('likelihood not below the threshold', self.low, w.logL)
        for q in range(n):
            lo, hi = LIM[self.K.which(q)]
            ctx.le('parameters in their domain', lo, w.allpars[self.pre + q])
            ctx.le('parameters in their domain', w.allpars[self.pre + q], hi)


def engine(ctx, S, name):
    E = ctx.cls(name)(S.wl, S.ed)
    object.__setattr__(E, 'rng', S.rng)
    S.stored = []
    ph = type('Ph', (), {})()
    ph.storeItems = S.stored.append
    object.__setattr__(E, 'phantoms', ph)
    object.__setattr__(E, 'maxtrials', 2)
    return E


def birth(ctx, kind, place, size, hi, hyper):
    S = DState(ctx, kind, place, [size, 2, size], 1, hi, hyper, calls=3)
    append = ctx.choose([False, True])
    kw = 2 if ctx.choose([True, False]) else 0
    S.low = S.before[kw].logL - ctx.real('gap', lo=0.0, hi=None if ctx.sym else 2.0)
    E = engine(ctx, S, 'BirthEngine')
    got = E.execute(kw, S.low, append=append)
    K, pre = S.K, S.pre
    old = K.size(size)
    dn = K.size(size + 1) - old
    if len(S.wl) == 3 and S.wl[kw] is S.before[kw]:
        S.audit(got, None)
        return
    ctx.same('moves reported', int(got), dn)
    # the draws used for the new parameters: those of the last proposal
    last = S.rng.draws[-dn:]
    p = S.pars[kw]
    i = pre + old
    new = [K.value(u, old + q) for q, u in enumerate(last)]
    ctx.ok('wanted by the prior on the number of components', 1 + S.rng.draws[0] * hi >= size)
    ctx.ok('offered to the phantoms', S.stored == [S.wl[3 if append else kw]])
    S.audit(got, (3 if append else kw, size + 1, p[:i] + new + p[i:]))


def death(ctx, kind, place, size, lo, hyper):
    S = DState(ctx, kind, place, [size, 2, size], lo, 4, hyper, calls=3)
    append = ctx.choose([False, True])
    kw = 2 if ctx.choose([True, False]) else 0
    S.low = S.before[kw].logL - ctx.real('gap', lo=0.0, hi=None if ctx.sym else 2.0)
    perm = None
    if kind.startswith('repeat') and size > 1:
        perm = ctx.choose([tuple(range(size)), tuple(range(size))[::-1]])
        S.rng.permutation = lambda n: ctx.np.array(list(perm))
    E = engine(ctx, S, 'DeathEngine')
    got = E.execute(kw, S.low, append=append)
    K, pre = S.K, S.pre
    old = K.size(size)
    if len(S.wl) == 3 and S.wl[kw] is S.before[kw]:
        S.audit(got, None)
        return
    dn = old - K.size(size - 1)
    ctx.same('moves reported', int(got), dn)
    p = S.pars[kw]
    w = S.wl[3 if append else kw]
    if perm is None:
        i = pre + old
        S.audit(got, (3 if append else kw, size - 1, p[:i - dn] + p[i:]))
        return
    # components in another order, one of them gone, shared parameters stay
    same = {'repeat': [], 'repeat1': [1], 'repeat02': [0, 2], 'repeat chain': []}[kind]
    free = [k for k in range(3) if k not in same]
    comp = [[p[pre + k] for k in free]] + [p[pre + 3 + c * len(free):pre + 3 + (c + 1) * len(free)] for c in range(size - 1)]
    q = list(w.allpars)[pre:pre + K.size(size - 1)]
    gotc = [[q[k] for k in free]] + [q[3 + c * len(free):3 + (c + 1) * len(free)] for c in range(size - 2)] if size > 1 else []
    used = []
    for g in gotc:
        f = [j for j in range(size) if j not in used and all(_same(ctx, a, b) for a, b in zip(g, comp[j]))]
        ctx.ok('each component left is one that was there', len(f) > 0)
        used += f[:1]
    for k in same:
        ctx.eq('shared parameters stay', q[k], p[pre + k])
    S.audit(got, (3 if append else kw, size - 1, p[:pre] + q + p[pre + old:]))


for kind in ('poly', 'harm', 'repeat', 'repeat1', 'repeat02'):
    for place in ('alone', 'middle'):
        for hyper in (False, True):
            t = '%s %s%s' % (kind, place, ' hyper' if hyper else '')
            add('D01', 'birth %s' % t, birth, kind, place, 2, 4, hyper, maxpaths=3000)
            add('D01', 'death %s' % t, death, kind, place, 3 if kind.startswith('repeat') else 2, 1, hyper, maxpaths=3000)
    add('D01', 'birth %s at maximum' % kind, birth, kind, 'middle', 2, 2, True)
    add('D01', 'death %s at minimum' % kind, death, kind, 'middle', 2, 2, True)


def engines_real(ctx, kind, place, hyper):
    """birth, death and structure engines one after the other on walkers with splines or trees, on numbers"""
    np = ctx.np
    st = object.__setattr__
    rng = np.random.RandomState(ctx.int(1, 10000))
    U = ctx.cls('UniformPrior')
    nd = 2 if kind == 'tree' else 1
    if kind == 'tree':
        m = ctx.cls('DecisionTreeModel')(ndim=2, itypes=[0, 2 if place == 'alone' else 0], growPrior=U(limits=[0, 6]))
        m.setPrior(0, U(limits=[-9, 9]))
        for k in range(3):
            m.grow(rng=rng)
        x = np.array([[float(i % 5), i % 4] for i in range(12)])
        if place == 'alone':
            from astropy.table import Table
            x = Table([x[:, 0], x[:, 1].astype(int)])
    else:
        m = ctx.cls('SplinesDynamicModel')(knots=[0.0, 1.0, 2.5, 3.0, 5.0], order=2, minKnots=3, maxKnots=8)
        m.setPrior(0, U(limits=[-9, 9]))
        x = np.linspace(0.0, 5.0, 11)
    head, pre, post = m, 0, 0
    if place == 'middle':
        if kind == 'tree':
            head = ctx.cls('PolySurfaceModel')(1)
            head.addModel(m)
            head.addModel(ctx.cls('PolySurfaceModel')(0))
            pre, post = 3, 1
        else:
            head = ctx.cls('PolynomialModel')(1)
            head.addModel(m)
            head.addModel(ctx.cls('SineModel')())
            pre, post = 2, 3
    for k in list(range(pre)) + [pre + m.npbase + i for i in range(post)]:
        head.setPrior(k, U(limits=[-9, 9]))
    ed = ctx.cls('GaussErrorDistribution')()
    nh = 1 if hyper else 0
    if not hyper:
        st(ed, 'hyperpar', [])

    def L(problem, allpars):
        n = len(allpars) - nh
        ctx.same('a proposal has the size of its model', n, problem.model.npars)
        r = problem.model.result(x, allpars[:n])
        return float(-np.sum((r - 1.0) ** 2) / 50 - 0.01 * n)
    st(ed, 'logLikelihood', L)
    n = head.npars
    head.parameters = rng.uniform(-3, 3, n)
    P = ctx.cls('ClassicProblem')(model=head, xdata=x, ydata=np.ones(len(x)))
    fi = np.array(list(range(n)) + ([-1] if hyper else []))
    wl = ctx.cls('WalkerList')(problem=P, ensemble=3, allpars=np.append(head.parameters, [1.0] * nh), fitIndex=fi)
    for w in wl:
        w.allpars = np.append(rng.uniform(-3, 3, n), [1.0] * nh)
        w.problem.model.parameters = w.allpars[:n].copy()
        st(w, 'logL', L(w.problem, w.allpars))
    stored = []

    def inner(h):
        while type(h).__name__ != type(m).__name__:
            h = h._next
        return h

    def struct(d):
        return own(d) if kind == 'tree' else list(d.knots)

    def state(w):
        d = inner(w.problem.model)
        return (w.id, w.logL, list(w.allpars), [int(k) for k in w.fitIndex], w.problem.model.npars, d.npbase, int(d.ncomp), repr(struct(d)), list(w.problem.model.parameters))

    def audit(w, tag):
        h = w.problem.model
        d = inner(h)
        k = len(d.knots) + 1 if kind == 'splines' else d.count()[0]
        ctx.same('%s: sizes' % tag, [d.npbase, h.npars, len(h.parameters), len(w.allpars)], [k, pre + k + post, pre + k + post, pre + k + post + nh])
        ctx.same('%s: indices' % tag, [int(q) for q in w.fitIndex], list(range(pre + k + post)) + ([-1] if hyper else []))
        ctx.eq('%s: likelihood' % tag, w.logL, L(w.problem, w.allpars))
        ctx.ok('%s: parameters in their domain' % tag, np.all(np.abs(w.allpars) <= 9))
        if kind == 'splines':
            ctx.ok('%s: knots in order' % tag, np.all(np.diff(d.knots) > 0) and 3 <= len(d.knots) <= 8)
            ctx.eq('%s: ends of the knots' % tag, d.knots[[0, -1]], np.array([0.0, 5.0]))
            f = ctx.cls('BasicSplinesModel')(knots=d.knots.copy(), order=2)
            q = w.allpars[pre:pre + k]
            ctx.eq('%s: value as of new splines' % tag, d.baseResult(x, q), f.result(x, q))
        else:
            ctx.ok('%s: rules fit the kind of column' % tag, all((q[1] == 'mask') == (q[0] == 1 and place == 'alone') for q in own(d)[1]))
    names = ('BirthEngine', 'DeathEngine', 'StructureEngine')
    engines = {}
    for e in names:
        E = engines[e] = ctx.cls(e)(wl, ed)
        st(E, 'rng', rng)
        st(E, 'maxtrials', 3)
        ph = type('Ph', (), {})()
        ph.storeItems = stored.append
        st(E, 'phantoms', ph)
    for s in range(12):
        e = names[rng.randint(3)]
        kw = rng.randint(len(wl))
        append = bool(rng.randint(4) == 0)
        low = wl[kw].logL - rng.rand()
        before = [(w, state(w)) for w in wl]
        try:
            got = engines[e].execute(kw, low, append=append)
        except ValueError as err:
            if 'Out of limits' not in str(err):
                raise
            return
        for i, (w, b) in enumerate(before):
            ctx.same('%s: earlier walkers are not touched' % e, state(w), b)
            if i != kw or append:
                ctx.ok('%s: other walkers in their place' % e, wl[i] is w)
        for i, w in enumerate(wl):
            audit(w, e)
            for j in range(i):
                ctx.ok('%s: no shared models' % e, wl[j].problem is not w.problem and wl[j].problem.model is not w.problem.model and wl[j].allpars is not w.allpars)
        ctx.ok('%s: moves' % e, (got > 0) == (wl[kw] is not before[kw][0] or len(wl) > len(before)))
        k = len(wl) - 1 if append else kw
        if got:
            ctx.ok('%s: not below the threshold' % e, wl[k].logL >= low)
            b = before[kw][1]
            ctx.same('%s: parameters before' % e, list(wl[k].allpars[:pre]), b[2][:pre])
            if post + nh:
                ctx.same('%s: parameters after' % e, list(wl[k].allpars[-post - nh:]), b[2][-post - nh:])
            if e == 'StructureEngine':
                ctx.same('%s: parameters' % e, list(wl[k].allpars), b[2])


for kind in ('splines', 'tree'):
    for place in ('alone', 'middle'):
        for hyper in (False, True):
            add('D01', 'engines real %s %s%s' % (kind, place, ' hyper' if hyper else ''), engines_real, kind, place, hyper, mode='bounded', nreal=12)


# ------------------------------------------------------------------------------------------------ start of dynamic models
def start(ctx, kind, place, hyper, fails):
    """a new walker of a dynamic model: size, parameters and indices agree, also after an impossible first proposal"""
    np = ctx.np
    S = DState(ctx, kind, place, [1, 1], 1, 3, hyper, calls=2 + fails)
    count = [0]
    inf = float('inf')
    # the other constituents need priors too
    for w in S.wl:
        h = w.problem.model
        for k in list(range(S.pre)) + [S.pre + S.K.size(1) + i for i in range(S.post)]:
            h.setPrior(k, ctx.cls('UniformPrior')(limits=[10, 11]))

    def logL(problem, allpars):
        count[0] += 1
        ctx.same('a proposal has the size of its model', len(allpars) - S.nh, int(problem.model.npars))
        if count[0] <= fails:
            return -inf
        return S.F(allpars)
    object.__setattr__(S.ed, 'logLikelihood', logL)
    kept = ctx.choose([None] + ([0] if S.pre else []) + ([-1 - S.nh] if S.post else []) + ([-1] if S.nh else []))
    if kept is not None:
        w = S.wl[1]
        n = len(w.allpars)
        gone = kept if kept >= 0 else (n + kept if kept != -1 or not S.nh else -1)
        object.__setattr__(w, 'fitIndex', np.array([k for k in w.fitIndex if k != gone]))
    E = engine(ctx, S, 'StartEngine')
    object.__setattr__(E, 'maxtrials', 5)
    E.execute(1, -1e300)
    w = S.wl[1]
    c = int(sub(w.problem.model, S.K).ncomp)
    n = S.K.size(c)
    N = S.pre + n + S.post
    h = w.problem.model
    ctx.ok('components within their limits', 1 <= c <= 3)
    ctx.same('sizes', [int(h.npars), int(h.npchain), int(sub(h, S.K).npbase), len(w.allpars)], [N, N, n, N + S.nh])
    gone = kept if kept is None or kept >= 0 or (kept == -1 and hyper) else N + S.nh + kept
    ctx.same('fitted indices', [int(k) for k in w.fitIndex], [k for k in list(range(N)) + ([-1] if hyper else []) if k != gone])
    ctx.eq('likelihood', w.logL, S.F(w.allpars))
    if kept is not None:
        ctx.eq('kept parameter', w.allpars[kept], S.pars[1][kept])
    for q in range(N):
        if q == gone:
            continue
        lo, hi = LIM[S.K.which(q - S.pre)] if S.pre <= q < S.pre + n else (10.0, 11.0)
        ctx.le('parameters in their domain', lo, w.allpars[q])
        ctx.le('parameters in their domain', w.allpars[q], hi)
    S.untouched(0, S.wl[0])


for kind in ('poly', 'harm', 'repeat1'):
    for place in ('alone', 'middle', 'last'):
        for fails in (0, 1):
            add('D01', 'start %s %s fails %d' % (kind, place, fails), start, kind, place, place != 'alone', fails, maxpaths=3000)
