"""M03: compound models.  The constituents are abstract: a model AM(name, k parameters, I inputs, O outputs) whose value is an
uninterpreted function of its parameters and inputs and whose partials and input derivative are the derivatives of that
function.  What is proved holds for every constituent that keeps its own contract (M01, M02).  An abstract constituent also
stands for a whole prefix of a longer chain: the recursion hands on only (result, partial, derivative) of what came before."""
from vc.prove import add

OPS = '+-*/|'
NAME = {'+': 'addModel', '-': 'subtractModel', '*': 'multiplyModel', '/': 'divideModel', '|': 'pipeModel'}


def abstract(ctx):
    Model = ctx.cls('Model')
    np = ctx.np
    st = object.__setattr__

    class AModel(Model):
        def __init__(self, nm, k, ndim=1, ndout=1, copy=None, params=None, **kw):
            if ndout > 1:
                st(self, 'ndout', ndout)
            Model.__init__(self, k, ndim=ndim, copy=copy, params=params, **kw)
            st(self, 'nm', nm)
            st(self, 'nk', k)

        def copy(self):
            return AModel(self.nm, self.nk, self.ndim, self.ndout, copy=self)

        def _args(self, x, p):
            if len(p) != self.nk:
                raise ValueError('%s is given %d parameters instead of %d' % (self.nm, len(p), self.nk))
            return list(p) + ([x] if self.ndim == 1 else [x[:, i] for i in range(self.ndim)])

        def _f(self, x, p, o, d=''):
            return ctx.ufun('%s_%d%s' % (self.nm, o, d))(*self._args(x, p))

        def baseResult(self, x, p):
            if self.ndout == 1:
                return self._f(x, p, 0)
            return np.array([self._f(x, p, o) for o in range(self.ndout)]).T

        def basePartial(self, x, p, parlist=None):
            pl = range(self.nk) if parlist is None else parlist
            r = []
            for o in range(self.ndout):
                if len(pl) == 0:
                    r.append(np.zeros((x.shape[0], 0)))
                else:
                    r.append(np.array([self._f(x, p, o, "'%d" % i) for i in pl]).T)
            return r[0] if self.ndout == 1 else r

        def baseDerivative(self, x, p):
            n = self.nk
            g = lambda o, i: self._f(x, p, o, "'%d" % (n + i))
            if self.ndim == 1:
                return g(0, 0) if self.ndout == 1 else np.array([g(o, 0) for o in range(self.ndout)]).T
            r = [np.array([g(o, i) for i in range(self.ndim)]).T for o in range(self.ndout)]
            return r[0] if self.ndout == 1 else r

        def baseName(self):
            return 'A_' + self.nm
    return AModel


# ------------------------------------------------------------------ expressions: nested tuples (first, (op, item), (op, item) ...)
def parse(s):
    """'A+B*(C-D)' -> ['A', ('+','B'), ('*', ['C', ('-','D')])]"""
    pos = [0]

    def item():
        c = s[pos[0]]
        pos[0] += 1
        if c == '(':
            r = chain()
            pos[0] += 1
            return r
        return c

    def chain():
        r = [item()]
        while pos[0] < len(s) and s[pos[0]] in OPS:
            op = s[pos[0]]
            pos[0] += 1
            r.append((op, item()))
        return r
    return chain()


def leaves(e):
    if isinstance(e, str):
        return [e]
    r = leaves(e[0])
    for op, i in e[1:]:
        r += leaves(i)
    return r


def build(ctx, e, mk, way):
    """the model of expression e"""
    if isinstance(e, str):
        return mk(e)
    m = build(ctx, e[0], mk, way)
    if not isinstance(e[0], str):
        m = ctx.model('BracketModel', m)
    for op, i in e[1:]:
        b = build(ctx, i, mk, way)
        if not isinstance(i, str) and way == 'bracket':
            b = ctx.model('BracketModel', b)
        if way == 'operators':
            m = {'+': lambda: m + b, '-': lambda: m - b, '*': lambda: m * b, '/': lambda: m / b, '|': lambda: m | b}[op]()
        elif way == 'inplace':
            if op == '+':
                m += b
            elif op == '-':
                m -= b
            elif op == '*':
                m *= b
            elif op == '/':
                m /= b
            else:
                m |= b
        else:
            getattr(m, NAME[op])(b)
    return m


def value(e, x, pars, ms):
    """left to right evaluation"""
    if isinstance(e, str):
        return ms[e].baseResult(x, pars[e])
    v = value(e[0], x, pars, ms)
    for op, i in e[1:]:
        if op == '|':
            v = value(i, v, pars, ms)
            continue
        w = value(i, x, pars, ms)
        v = v + w if op == '+' else v - w if op == '-' else v * w if op == '*' else v / w
    return v


NPAR = {'A': 2, 'B': 1, 'C': 2, 'D': 1, 'E': 0, 'F': 3}


def m03(ctx, expr, dims, ways):
    """dims: leaf -> (inputs, outputs), default (1,1)"""
    e = parse(expr)
    AM = abstract(ctx)
    ms = {}

    def mk(c):
        m = AM(c, NPAR[c], *dims.get(c, (1, 1)))
        ms[c] = m.copy()
        return m
    way = ctx.choose(ways)
    m = build(ctx, e, mk, way.split('-')[0])
    if way.endswith('-copy'):
        m = m.copy()
    lv = leaves(e)
    pars = {c: ctx.vec('p' + c, NPAR[c]) for c in lv}
    p = ctx.array([v for c in lv for v in pars[c]])
    nd = dims.get(lv[0], (1, 1))[0]
    x = ctx.data('x', k=None if nd == 1 else nd)
    y = m.result(x, p)
    ctx.eq('number of parameters', m.npars, len(p))
    ctx.eq('value', y, value(e, x, pars, ms))
    dp = m.partial(x, p)
    if isinstance(dp, list):
        for k in range(len(dp)):
            ctx.jac('partial of output %d' % k, lambda q: m.result(x, q)[:, k], p, dp[k])
    else:
        ctx.jac('partial', lambda q: m.result(x, q), p, dp)
    dx = m.derivative(x, p)
    multi = len(y.shape) == 2
    for i in range(nd):
        for o in range(y.shape[1] if multi else 1):
            def f(z):
                if nd == 1:
                    xx = z
                else:
                    xx = x.copy()
                    xx[:, i] = z
                r = m.result(xx, p)
                return r[:, o] if multi else r
            d = dx[o][:, i] if multi and nd > 1 else dx[:, o] if multi else dx[:, i] if nd > 1 else dx
            ctx.ddata('derivative of output %d to input %d' % (o, i), f, x if nd == 1 else x[:, i].copy(), d)


W3 = ['methods', 'inplace', 'operators', 'methods-copy']
W2 = ['methods', 'bracket-copy', 'operators']
add('M03', 'A', m03, 'A', {}, ['methods', 'methods-copy'])
for o1 in OPS:
    add('M03', 'A%sB' % o1, m03, 'A%sB' % o1, {}, W3)
    add('M03', 'A%sE' % o1, m03, 'A%sE' % o1, {}, ['methods'], note='E: a constituent without parameters')
    for o2 in OPS:
        add('M03', 'A%sB%sC' % (o1, o2), m03, 'A%sB%sC' % (o1, o2), {}, W3)
        add('M03', 'A%s(B%sC)' % (o1, o2), m03, 'A%s(B%sC)' % (o1, o2), {}, W2)
        add('M03', '(A%sB)%sC' % (o1, o2), m03, '(A%sB)%sC' % (o1, o2), {}, ['methods', 'methods-copy'])
for ex in ('A+B*C-D', 'A*B|C+D', 'A|B*C|D', 'A-(B-(C-D))', 'A/(B*(C+D))', 'A|(B*(C|D))', '(A-B)*(C-D)', '(A|B)/(C|D)', 'A-(B|C)/D', 'A/B/C/D', 'A*(B+C)*D', 'A-B-(C-D)', 'A|(B+C)|D', 'F*(A|B-C)/D', 'A+(B|(C/D))-F'):
    add('M03', ex, m03, ex, {}, W2)
# several inputs and outputs
for I in (1, 2):
    for K in (1, 2):
        for O in (1, 2):
            if (I, K, O) != (1, 1, 1):
                add('M03', 'pipe-%d-%d-%d' % (I, K, O), m03, 'A|B', {'A': (I, K), 'B': (K, O)}, W2)
                add('M03', 'pipe-brackets-%d-%d-%d' % (I, K, O), m03, 'A|(B+C)', {'A': (I, K), 'B': (K, O), 'C': (K, O)}, W2)
                add('M03', 'pipe-after-sum-%d-%d-%d' % (I, K, O), m03, 'A+C|B', {'A': (I, K), 'C': (I, K), 'B': (K, O)}, W2)
                add('M03', 'pipe-pipe-%d-%d-%d' % (I, K, O), m03, 'A|B|C', {'A': (I, K), 'B': (K, O), 'C': (O, 1)}, W2)
                add('M03', 'pipe-then-sum-%d-%d-%d' % (I, K, O), m03, 'A|B+C', {'A': (I, K), 'B': (K, O), 'C': (I, O)}, W2)
add('M03', 'pipe-1-3-2', m03, 'A|B', {'A': (1, 3), 'B': (3, 2)}, W2)
add('M03', 'pipe-2-3-2', m03, 'A|B', {'A': (2, 3), 'B': (3, 2)}, W2)
add('M03', 'pipe-3-2-1', m03, 'A|B', {'A': (3, 2), 'B': (2, 1)}, W2)
for o in '+-*/':
    add('M03', 'inputs-2-%s' % o, m03, 'A%sB' % o, {'A': (2, 1), 'B': (2, 1)}, W2)
    add('M03', 'outputs-2-%s' % o, m03, 'A%sB' % o, {'A': (1, 2), 'B': (1, 2)}, W2)
    add('M03', 'outputs-2-inputs-2-%s' % o, m03, 'A%sB' % o, {'A': (2, 2), 'B': (2, 2)}, W2)
