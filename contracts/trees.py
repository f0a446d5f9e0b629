"""D02: repeated, combined and tree models against their expanded form.  The constituents are abstract (any value, any partials
that belong to it), parameters, data, constants of the relations and relative splits are arbitrary; the number of repeats,
the relations and the shapes of the trees are enumerated, and data sets of a tree are small (their order decides the path)."""
from vc.prove import add
from contracts.compound import abstract


# ------------------------------------------------------------------------------------------------ trees as plain values
class Leaf(object):
    def __init__(self, par):
        self.par = par


class Branch(object):
    """rule (dimension, 'split' or 'mask', value), the part that obeys it and the part that does not"""
    def __init__(self, dim, kind, val, left, rite):
        self.dim, self.kind, self.val, self.left, self.rite = dim, kind, val, left, rite


def leaves(t):
    return [t] if isinstance(t, Leaf) else leaves(t.left) + leaves(t.rite)


def branches(t):
    return [] if isinstance(t, Leaf) else [t] + branches(t.left) + branches(t.rite)


def clone(t):
    return Leaf(t.par) if isinstance(t, Leaf) else Branch(t.dim, t.kind, t.val, clone(t.left), clone(t.rite))


def rules(t):
    """branches from the root, left first"""
    return [(b.dim, b.kind, b.val) for b in branches(t)]


def shape(t):
    return 1 if isinstance(t, Leaf) else [shape(t.left), shape(t.rite)]


def own(m):
    """the shape and rules of a DecisionTreeModel, read from its links"""
    if m.left is None:
        return 1, []
    kind = 'split' if m.split is not None else 'mask'
    a, ra = own(m.left)
    b, rb = own(m.rite)
    return [a, b], [(int(m.dimension), kind, m.split if kind == 'split' else m.mask)] + ra + rb


def replace(t, old, new):
    if t is old:
        return new
    if isinstance(t, Leaf):
        return t
    return Branch(t.dim, t.kind, t.val, replace(t.left, old, new), replace(t.rite, old, new))


def parent(t, x):
    for b in branches(t):
        if b.left is x or b.rite is x:
            return b


def assign(rows, t):
    """row -> leaf; the cut is relative to the range of the rows that arrive at a branch"""
    out = {}

    def go(t, ix):
        if isinstance(t, Leaf):
            for i in ix:
                out[i] = t
            return
        yes, no = [], []
        v = {i: rows[i][t.dim] for i in ix}
        if t.kind == 'split' and ix:
            mn, mx = v[ix[0]], v[ix[0]]
            for i in ix[1:]:
                if v[i] < mn:
                    mn = v[i]
                if v[i] > mx:
                    mx = v[i]
            cut = mn + (mx - mn) * t.val
        for i in ix:
            if t.kind == 'split':
                c = v[i] > cut
            elif t.val >= 2:
                c = (int(v[i]) & t.val) != 0
            else:
                c = int(v[i]) == t.val
            (yes if c else no).append(i)
        go(t.left, yes)
        go(t.rite, no)
    go(t, list(range(len(rows))))
    return out


ROWS = [(0.0, 3.0), (1.0, -1.0), (2.5, 4.0), (-1.0, 0.5), (3.0, 2.0), (0.5, -2.0), (1.5, 1.0)]


def data(ctx):
    return ctx.np.array([[ctx.const(v) for v in r] for r in ROWS]) if ctx.sym else ctx.np.array(ROWS)


# ------------------------------------------------------------------------------------------------ repeated models
def inner(ctx, form):
    A = abstract(ctx)
    if form == 'chain':
        h = A('h', 2)
        h.multiplyModel(A('i', 1))
        return h
    if form == '2d':
        return A('h', 3, 2)
    return A('h', 3)


def expand(p, ncomp, same, n=3):
    """the full parameters of every component"""
    out = []
    if not ncomp:
        return out
    free = [k for k in range(n) if k not in same]
    out.append(list(p[:n]))
    at = n
    for c in range(1, ncomp):
        q = list(p[:n])
        for k in free:
            q[k] = p[at]
            at += 1
        out.append(q)
    return out


def repeating(ctx, form, ncomp, same):
    """value, partials and derivative of a repeated model; names and priors of its parameters"""
    np = ctx.np
    h = inner(ctx, form)
    n = 3
    S = [] if same is None else [same] if isinstance(same, int) else list(same)
    m = ctx.cls('RepeatingModel')(ncomp, h, same=same, **(dict(ndim=2) if form == '2d' else {}))
    np0 = 0 if ncomp == 0 else n + (ncomp - 1) * (n - len(S))
    ctx.same('number of parameters', int(m.npars), np0)
    p = ctx.vec('p', np0)
    x = ctx.data('x', k=2) if form == '2d' else ctx.data('x')
    if ncomp == 0:
        f = ctx.cls('PolynomialModel')(0) if form != '2d' else ctx.cls('PolySurfaceModel')(0)
        q = ctx.vec('q', 1)
        w = f.copy()
        w.addModel(m)
        ctx.eq('without components: value in a chain', w.result(x, q), f.result(x, q))
        ctx.same('without components: partials', m.partial(x, p).shape[1], 0)
        return
    comps = expand(p, ncomp, S)
    exp = 0
    for q in comps:
        exp = exp + h.result(x, ctx.array(q))
    snap = ctx.snap(p)
    ctx.eq('value', m.result(x, p), exp)
    ctx.eq('value again', m.result(x, p), exp)
    ctx.unchanged('parameters', [p], snap)
    full = [h.partial(x, ctx.array(q)) for q in comps]
    free = [k for k in range(n) if k not in S]
    cols = []
    for k in range(n):
        c = full[0][:, k]
        if k in S:
            for f in full[1:]:
                c = c + f[:, k]
        cols.append(c)
    for f in full[1:]:
        cols += [f[:, k] for k in free]
    got = m.partial(x, p)
    ctx.same('number of partials', got.shape[1], np0)
    for k in range(np0):
        ctx.eq('partial', got[:, k], cols[k])
    ctx.jac('partials', lambda q: m.result(x, q), p, got)
    if form != '2d':
        d = 0
        for q in comps:
            d = d + h.derivative(x, ctx.array(q))
        ctx.eq('derivative', m.derivative(x, p), d)
    ctx.eq('selected partials', m.basePartial(x, p, parlist=[np0 - 1, 0])[:, 0], cols[-1])
    ctx.ok('names', len({m.getParameterName(k) for k in range(np0)}) == np0 if form == 'one' else True)
    U = ctx.cls('UniformPrior')
    for k in range(n):
        m.setPrior(k, U(limits=[k, k + 1]))
    at = list(range(n)) + free * (ncomp - 1)
    for k in range(np0):
        ctx.eq('prior', m.unit2Domain(ctx.const(0.5), k), ctx.const(at[k] + 0.5))


for form in ('one', 'chain', '2d'):
    for ncomp in (0, 1, 2, 3, 5):
        for same in (None, 0, 1, [0, 2], [1, 2], [0, 1, 2]):
            if form == '2d' and ncomp > 3:
                continue
            add('D02', 'repeat %s %d same %s' % (form, ncomp, same), repeating, form, ncomp, same)


# ------------------------------------------------------------------------------------------------ combined models
def combi(ctx, form, nrep, oper, addk, mulk, copied):
    """parameters in one relation are one parameter plus or times the given constants"""
    np = ctx.np
    h = inner(ctx, form)
    n = 3
    ac = {k: [ctx.real('a%d_%d' % (k, j)) for j in range(nrep)] for k in addk}
    mc = {k: [ctx.real('m%d_%d' % (k, j), pos=True) for j in range(nrep)] for k in mulk}
    kw = {}
    if addk:
        kw['addCombi'] = ac
    if mulk:
        kw['mulCombi'] = mc
    m = ctx.cls('CombiModel')(h, nrep, oper=oper, **kw)
    tied = set(addk) | set(mulk)
    np0 = n + (nrep - 1) * (n - len(tied))
    if copied:
        m.parameters = ctx.vec('q', np0)
        c = m.copy()
        ctx.eq('parameters of the copy', c.parameters, m.parameters)
        m = c
    ctx.same('number of parameters', [int(m.npars), int(m.npbase), len(m.parameters)], [np0] * 3)
    p = ctx.vec('p', np0)
    x = ctx.data('x')
    idx = []                     # component -> own parameter of each place
    comps = []
    at = n
    for j in range(nrep):
        q, ix = [], []
        for k in range(n):
            if k in tied or j == 0:
                i = k
            else:
                i = at
                at += 1
            v = p[i]
            if k in ac:
                v = v + ac[k][j]
            if k in mc:
                v = v * mc[k][j]
            q.append(v)
            ix.append(i)
        comps.append(q)
        idx.append(ix)
    f = [h.result(x, ctx.array(q)) for q in comps]
    d = [h.partial(x, ctx.array(q)) for q in comps]
    dx = [h.derivative(x, ctx.array(q)) for q in comps]
    exp = f[0]
    for g in f[1:]:
        exp = exp + g if oper == 'add' else exp * g
    snap = ctx.snap(p)
    ctx.eq('value', m.result(x, p), exp)
    ctx.unchanged('parameters', [p], snap)
    got = m.partial(x, p)
    ctx.same('number of partials', got.shape[1], np0)
    ctx.jac('partials', lambda q: m.result(x, q), p, got)

    def others(j):
        r = 1
        for i in range(nrep):
            if i != j:
                r = r * f[i]
        return r
    for i in range(np0):
        e = 0
        for j in range(nrep):
            for k in range(n):
                if idx[j][k] == i:
                    t = d[j][:, k] * (mc[k][j] if k in mc else 1)
                    e = e + (t if oper == 'add' else t * others(j))
        ctx.eq('partial', got[:, i], e)
    e = 0
    for j in range(nrep):
        e = e + (dx[j] if oper == 'add' else dx[j] * others(j))
    ctx.eq('derivative', m.derivative(x, p), e)
    g = ctx.cls('PolynomialModel')(1)
    w = g.copy()
    w.addModel(m)
    r = ctx.vec('r', 2)
    full = ctx.array(list(r) + list(p))
    ctx.eq('value in a chain', w.result(x, full), g.result(x, r) + exp)


for oper in ('add', 'mul'):
    for nrep in (1, 2, 3):
        for addk, mulk in (((), ()), ((1,), ()), ((0, 2), ()), ((), (1,)), ((), (0, 1, 2)), ((1,), (2,)), ((1,), (1,)), ((0, 1), (1, 2))):
            add('D02', 'combi %s %d add %s mul %s' % (oper, nrep, list(addk), list(mulk)), combi, 'one', nrep, oper, addk, mulk, False)
    add('D02', 'combi %s chain' % oper, combi, 'chain', 2, oper, (1,), (2,), False)
    add('D02', 'combi %s copy' % oper, combi, 'one', 3, oper, (1,), (2,), True)
    add('D02', 'combi %s chain copy' % oper, combi, 'chain', 2, oper, (1,), (2,), True)


# ------------------------------------------------------------------------------------------------ decision trees
def code(t):
    """nested code, dimensions and rules of a tree as encode() presents them"""
    if isinstance(t, Leaf):
        return 1
    if isinstance(t.left, Leaf) and isinstance(t.rite, Leaf):
        return 2
    return [code(t.left), code(t.rite)]


def grown(c, kdims, vals, kinds):
    """tree of a nested code, rules taken in order"""
    at = [0]

    def go(c):
        if c == 1:
            return Leaf(None)
        i = at[0]
        at[0] += 1
        l, r = (1, 1) if c == 2 else c
        a = go(l)
        return Branch(kdims[i], kinds[i], vals[i], a, go(r))
    return go(c)


def nbranch(c):
    return 0 if c == 1 else 1 if c == 2 else 1 + nbranch(c[0]) + nbranch(c[1])


def same_shape(a, b):
    return shape(a) == b


def check_tree(ctx, m, t, x, rows, p, what=''):
    """value, partials, derivative, order of the data"""
    ls = leaves(t)
    for k, l in enumerate(ls):
        l.par = k
    to = assign(rows, t)
    ctx.same(what + 'every row has a leaf', sorted(to), list(range(len(rows))))
    exp = [p[to[i].par] for i in range(len(rows))]
    ctx.eq(what + 'value', m.result(x, p), ctx.array(exp))
    part = m.partial(x, p)
    ctx.same(what + 'shape of the partials', tuple(part.shape), (len(rows), len(ls)))
    ind = ctx.np.array([[ctx.const(1.0 if to[i].par == k else 0.0) for k in range(len(ls))] for i in range(len(rows))])
    ctx.eq(what + 'partials', part, ind)
    if len(ls) > 1:
        sel = [len(ls) - 1, 0]
        ctx.eq(what + 'selected partials', m.basePartial(x, p, parlist=sel), ind[:, sel])
    return to


def tree(ctx, c, kdims, made, form, symdata):
    np = ctx.np
    nb = nbranch(c)
    rows = ROWS
    if form == 'line':
        kdims = [0] * nb
        rows = [(r[1],) for r in ROWS[:4 if symdata else 7]]
    if symdata:
        rows = [tuple(ctx.real('x%d_%d' % (i, j)) for j in range(len(r))) for i, r in enumerate(rows)]
    elif ctx.sym:
        rows = [tuple(ctx.const(v) for v in r) for r in rows]
    if form == 'line':
        x = ctx.array([r[0] for r in rows])
        nd = 1
    elif form == 'list':
        x = [ctx.array([r[j] for r in rows]) for j in range(2)]
        nd = 2
    else:
        x = np.array([list(r) for r in rows])
        nd = 2
    vals = [ctx.real('s%d' % i, lo=0.0, hi=1.0) for i in range(nb)]
    for v in vals:
        ctx.assume(0.0 < v)
        ctx.assume(v < 1.0)
    t = grown(c, kdims, vals, ['split'] * nb)
    nl = nb + 1
    D = ctx.cls('DecisionTreeModel')
    given = list(vals)
    if made == 'depth':
        depth = {1: 0, 2: 1}.get(c if isinstance(c, int) else 0, 2)
        m = D(ndim=nd, depth=depth, kdim=list(kdims), split=given)
    else:
        m = D(ndim=nd, code=c, kdim=list(kdims), split=given)
    ctx.same('number of parameters', [int(m.npars), int(m.npbase), len(m.parameters), int(m.ncomp)], [nl, nl, nl, nb])
    s, r = own(m)
    ctx.same('shape', s, shape(t))
    for (d, k, v), (d1, k1, v1) in zip(r, rules(t)):
        ctx.same('dimension', d, d1)
        ctx.same('kind', k, k1)
        ctx.eq('split', v, v1)
    ctx.ok('split list of the user', len(given) == nb)
    e = m.encode()
    ctx.same('code', e[0] if nl > 1 else 1, code(t))
    ctx.same('dimensions of the code', [int(d) for d in e[1]], [d for d, _, _ in rules(t)])
    ctx.eq('splits of the code', ctx.array(list(e[2])) if nb else 0, ctx.array([v for _, _, v in rules(t)]) if nb else 0)
    p = ctx.vec('p', nl)
    snap = ctx.snap(p)
    check_tree(ctx, m, t, x, rows, p)
    ctx.unchanged('parameters', [p], snap)
    if form != 'list' and nd == 1:
        ctx.eq('derivative', m.derivative(x, p), 0 * m.result(x, p))
    if nl > 1:
        q = D(ndim=nd, code=e[0], kdim=e[1], split=e[2])
        check_tree(ctx, q, t, x, rows, p, 'decoded: ')
        order = m.sortXdata(x)
        to = assign(rows, t)
        order = [int(i) for i in order]
        ctx.same('order is a permutation', sorted(order), list(range(len(rows))))
        ks = [to[i].par for i in order]
        ctx.same('order groups the leafs', ks, sorted(ks))
    m.parameters = p
    w = m.copy()
    ctx.eq('parameters of the copy', w.parameters, p)
    check_tree(ctx, w, t, x, rows, p, 'copy: ')
    if form != 'list':
        ctx.same('shape of the copy', own(w)[0], shape(t))
        f = ctx.cls('PolynomialModel')(0) if nd == 1 else ctx.cls('PolySurfaceModel')(0)
        f.addModel(w)
        z = ctx.real('z')
        ctx.eq('in a chain', f.result(x, ctx.array([z] + list(p))), m.result(x, p) + z)


CODES = [1, 2, [1, 2], [2, 1], [2, 2], [[1, 2], 2], [2, [2, 1]]]
for form in ('table', 'line'):
    for made in ('depth', 'code'):
        for c in CODES[:2] + CODES[4:5] if made == 'depth' else CODES[1:]:
            nb = nbranch(c)
            for kd in ([0, 1, 0, 1, 0], [1, 1, 0, 0, 1]):
                if kd[0] and (form == 'line' or not nb):
                    continue
                add('D02', 'tree %s of %s %s %s' % (form, made, c, kd[:nb]), tree, c, kd[:nb], made, form, False, maxpaths=3000)
for c in CODES[1:3]:
    add('D02', 'tree any data of %s' % c, tree, c, [0] * nbranch(c), 'code', 'line', True, maxpaths=3000)


def categories(ctx, kinds, c, itype, masks):
    """branches on a column of categories (itype 1: two values, otherwise a set of values) next to one of numbers"""
    np = ctx.np
    from astropy.table import Table
    import numpy
    if itype == 1:
        cat = [1, 2, 1, 2, 2, 1, 1]
    else:
        cat = [1, 2, 4, 8, 2, 4, 1]
    num = [r[1] for r in ROWS]
    x = Table([numpy.array(cat), numpy.array(num)])
    rows = [(a, ctx.const(b)) for a, b in zip(cat, num)]
    nb = nbranch(c)
    vals, kd = [], []
    for i in range(nb):
        if kinds[i] == 'mask':
            vals.append(masks[i])
            kd.append(0)
        else:
            v = ctx.real('s%d' % i, lo=0.0, hi=1.0)
            ctx.assume(0.0 < v)
            ctx.assume(v < 1.0)
            vals.append(v)
            kd.append(1)
    t = grown(c, kd, vals, kinds)
    D = ctx.cls('DecisionTreeModel')
    m = D(ndim=2, code=c, kdim=kd, split=vals, itypes=[itype, 0])
    ctx.same('number of parameters', [int(m.npars), len(m.parameters)], [nb + 1] * 2)
    ctx.same('rules', [q[1] for q in own(m)[1]], list(kinds))
    p = ctx.vec('p', nb + 1)
    check_tree(ctx, m, t, x, rows, p)
    e = m.encode()
    q = D(ndim=2, code=e[0], kdim=e[1], split=e[2], itypes=[itype, 0])
    check_tree(ctx, q, t, x, rows, p, 'decoded: ')
    check_tree(ctx, m.copy(), t, x, rows, p, 'copy: ')
    order = [int(i) for i in m.sortXdata(x)]
    ctx.same('order is a permutation', sorted(order), list(range(len(rows))))


for c in (2, [1, 2], [2, 2]):
    for itype in (1, 4):
        for pat in ('mmm', 'msm', 'smm', 'sms', 'mms'):
            nb = nbranch(c)
            kinds = ['mask' if k == 'm' else 'split' for k in pat[:nb]]
            if pat[:nb] in [q[:nb] for q in ('mmm', 'msm', 'smm', 'sms', 'mms')[:('mmm', 'msm', 'smm', 'sms', 'mms').index(pat)]]:
                continue
            for ms in (([1, 2, 1], [2, 1, 2]) if itype == 1 else ([3, 5, 2], [8, 6, 12])):
                add('D02', 'tree categories %d of %s %s %s' % (itype, c, pat[:nb], ms[:nb]), categories, kinds, c, itype, ms, maxpaths=3000)


def unknown(ctx, c, kdims, pos):
    """rows with an unknown value take the side of the larger part; the known rows are where they would be without them"""
    import numpy
    nb = nbranch(c)
    rg = ctx.rng()
    vals = [float(rg.uniform(0.1, 0.9)) for i in range(nb)]
    t = grown(c, kdims, vals, ['split'] * nb)
    for k, l in enumerate(leaves(t)):
        l.par = k
    x = numpy.array(ROWS)
    for i, j in pos:
        x[i, j] = numpy.nan
    m = ctx.cls('DecisionTreeModel')(ndim=2, code=c, kdim=kdims, split=vals)
    p = ctx.vec('p', nb + 1)
    to = {}

    def go(t, ix):
        if isinstance(t, Leaf):
            for i in ix:
                to[i] = t.par
            return
        v = [x[i, t.dim] for i in ix if x[i, t.dim] == x[i, t.dim]]
        if v:
            cut = min(v) + (max(v) - min(v)) * t.val
        yes, no = [], []
        for i in ix:
            u = x[i, t.dim]
            (yes if (u > cut if u == u else t.val >= 0.5) else no).append(i)
        go(t.left, yes)
        go(t.rite, no)
    go(t, list(range(len(ROWS))))
    ctx.eq('value', m.result(x, p), numpy.array([p[to[i]] for i in range(len(ROWS))]))
    part = m.partial(x, p)
    ctx.ok('one leaf for each row', all(sum(r) == 1 and r[to[i]] == 1 for i, r in enumerate(part.tolist())))
    ctx.same('order is a permutation', sorted(int(i) for i in m.sortXdata(x)), list(range(len(ROWS))))


for c in (2, [1, 2], [2, 2], [[1, 2], 2]):
    for pos in ([(0, 0)], [(2, 0), (4, 1)], [(3, 0), (1, 0), (5, 1)]):
        add('D02', 'tree unknown values %s of %s' % (pos, c), unknown, c, [0, 1, 0, 1][:nbranch(c)], pos, mode='bounded', nreal=60)
