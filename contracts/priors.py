"""B01, B02: priors.  Every class, with every kind of limits, after every history of one or two changes; centre, scale, limits and
values are arbitrary reals.  The expected state (centre, scale, limits, period) is tracked independently of the object."""
import math
from vc.prove import add

CENTRED = ('LaplacePrior', 'GaussPrior', 'CauchyPrior')
INF = math.inf
NINF = -math.inf


def isinf(v):
    return isinstance(v, float) and math.isinf(v)


class St(object):
    """what the object should be"""
    def __init__(self, kind, c=0.0, s=1.0, lo=-INF, hi=INF, circ=False):
        self.kind, self.c, self.s, self.lo, self.hi, self.circ = kind, c, s, lo, hi, circ


def limits(ctx, st, what, tag):
    """[lo,hi] in the domain of the prior, None where not given.  The concrete runs stay within a few scales of the centre
    (further out the floating point densities underflow); the proof has no such bound"""
    dom = st.kind in ('JeffreysPrior', 'ExponentialPrior')
    r = [None, None]
    if dom:
        if 'l' in what:
            r[0] = ctx.real(tag + 'lo', lo=0.05, hi=1.5)
        if 'h' in what:
            r[1] = ctx.real(tag + 'wd', pos=True, **({} if ctx.sym else dict(lo=0.5, hi=4.0))) + (r[0] if r[0] is not None else 0.5)
        return r
    if ctx.sym:
        if 'l' in what:
            r[0] = ctx.real(tag + 'lo')
        if 'h' in what:
            r[1] = r[0] + ctx.real(tag + 'wd', pos=True) if 'l' in what else ctx.real(tag + 'hi')
        return r
    lo = st.c + st.s * ctx.real(tag + 'lo', lo=-2.0, hi=1.0)
    hi = lo + st.s * ctx.real(tag + 'wd', lo=0.5, hi=3.0)
    return [lo if 'l' in what else None, hi if 'h' in what else None]


def pos(ctx, name):
    return ctx.real(name, pos=True) if ctx.sym else ctx.real(name, lo=0.5, hi=2.0)


def make(ctx, kind, lim):
    """lim: '' 'l' 'h' 'lh' or 'c' (circular with limits) or 'p' (circular with a period)"""
    cls = ctx.cls(kind)
    st = St(kind)
    kw = {}
    if kind in CENTRED:
        st.c, st.s = ctx.real('c'), pos(ctx, 's')
        kw = dict(center=st.c, scale=st.s)
    elif kind == 'ExponentialPrior':
        st.s, st.lo = pos(ctx, 's'), 0.0
        kw = dict(scale=st.s)
    elif kind == 'JeffreysPrior':
        st.lo = 0.0
    if lim == 'p':
        per = pos(ctx, 'per')
        st.circ = True
        st.lo, st.hi = (st.c - per / 2, st.c + per / 2) if kind in CENTRED else (ctx.const(0.0), per)
        return cls(circular=per, **kw), st
    if lim == 'c':
        if kind in CENTRED:                        # symmetric around the centre
            h = pos(ctx, 'half')
            l = [st.c - h, st.c + h]
        else:
            l = limits(ctx, st, 'lh', 'a')
        st.circ = True
        st.lo, st.hi = l
        return cls(circular=True, limits=l, **kw), st
    if lim == '':
        return cls(**kw), st
    l = limits(ctx, st, lim, 'a')
    if kind == 'ExponentialPrior':
        if lim != 'h':
            p = cls(**kw)
            p.setLimits(l)
        else:
            p = cls(hilimit=l[1], **kw)
    else:
        p = cls(limits=l, **kw)
    upd(st, l)
    return p, st


def upd(st, l):
    st.lo = (0.0 if st.kind in ('JeffreysPrior', 'ExponentialPrior') else -INF) if l[0] is None else l[0]
    st.hi = INF if l[1] is None else l[1]


def change(ctx, p, st, how, tag):
    kind = st.kind
    if how == 'copy':
        q = p.copy()
        return q
    if how == 'copy, then original changed':
        q = p.copy()
        p.setLimits([0.25, 0.75])
        return q
    if how == 'unset':
        p.unsetLimits()
        upd(st, [None, None])
        return p
    if how.startswith('set:'):
        l = limits(ctx, st, how[4:], tag)
        if st.circ and kind in CENTRED:            # a circular prior stays symmetric
            h = pos(ctx, tag + 'half')
            l = [st.c - h, st.c + h]
        p.setLimits(l)
        upd(st, l)
    elif how == 'attr':
        l = limits(ctx, st, 'lh', tag)
        if st.circ and kind in CENTRED:
            h = pos(ctx, tag + 'half')
            l = [st.c - h, st.c + h]
        p.setAttributes(limits=l)
        upd(st, l)
    elif how == 'scale':
        st.s = pos(ctx, tag + 's') if ctx.sym else st.s * ctx.real(tag + 's', lo=0.8, hi=1.8)
        p.setAttributes(scale=st.s)
    elif how == 'attr+scale':
        st.s = pos(ctx, tag + 's') if ctx.sym else st.s * ctx.real(tag + 's', lo=0.8, hi=1.8)
        l = limits(ctx, st, 'lh', tag)
        if st.circ and kind in CENTRED:
            h = pos(ctx, tag + 'half')
            l = [st.c - h, st.c + h]
        p.setAttributes(limits=l, scale=st.s)
        upd(st, l)
    return p


def bound(st):
    """a proper prior; Uniform and Jeffreys need both limits"""
    if st.kind not in ('UniformPrior', 'CircularUniformPrior', 'JeffreysPrior'):
        return True
    return haslo(st) and not isinf(st.hi)


def haslo(st):
    if st.kind == 'JeffreysPrior':
        return not (isinstance(st.lo, float) and st.lo == 0.0)
    return not isinf(st.lo)


def setup(ctx, kind, lim, hist):
    p, st = make(ctx, kind, lim)
    for i, h in enumerate(hist):
        p = change(ctx, p, st, h, 'bcd'[i])
    return p, st


def inside(ctx, st, name):
    """a value strictly inside the limits"""
    lo, hi = st.lo, st.hi
    if ctx.sym:
        x = ctx.real(name)
        if st.kind == 'LaplacePrior':
            ctx.assume(x != st.c)                  # the density has a cusp there
        if not isinf(lo):
            ctx.assume(x > lo)
        if not isinf(hi):
            ctx.assume(x < hi)
        return x
    u = ctx.real(name, lo=0.02, hi=0.98)
    if isinf(lo) and isinf(hi):
        return st.c + st.s * (6 * u - 3)
    if isinf(lo):
        return hi - st.s * 3 * u
    if isinf(hi):
        return lo + st.s * 3 * u
    return lo + (hi - lo) * u


def b01(ctx, kind, lim, hist, form):
    p, st = setup(ctx, kind, lim, hist)
    ctx.same('circular', bool(p.isCircular()), st.circ)
    ctx.eq('low limit', p.lowLimit, st.lo)
    ctx.eq('high limit', p.highLimit, st.hi)
    ctx.eq('limits', p.getLimits()[0], st.lo)
    ctx.eq('limits', p.getLimits()[1], st.hi)
    ctx.same('has low limit', bool(p.hasLowLimit()), not isinf(st.lo) and not (kind in ('JeffreysPrior', 'ExponentialPrior') and isinstance(st.lo, float) and st.lo == 0.0))
    ctx.same('has high limit', bool(p.hasHighLimit()), not isinf(st.hi))
    if not bound(st):
        return
    if form == 'array':
        x = inside(ctx, st, 'x')
        y = inside(ctx, st, 'y')
        xs = ctx.array([x, y])
        us = p.domain2Unit(xs.copy())
        ctx.eq('domain to unit of an array', us, ctx.array([p.domain2Unit(x), p.domain2Unit(y)]))
        ctx.eq('and back', p.unit2Domain(us), xs)
        return
    x = inside(ctx, st, 'x')
    u = p.domain2Unit(x)
    ctx.ok('unit value between 0 and 1', (u >= 0) & (u <= 1))
    ctx.eq('domain to unit to domain', p.unit2Domain(u), x, tol=1e-5)
    y = inside(ctx, st, 'y')
    if ctx.sym:
        ctx.assume(y > x)
    elif y <= x:
        return
    ctx.ok('increasing', p.domain2Unit(y) > u if ctx.sym else p.domain2Unit(y) >= u)
    if st.circ:
        # three periods over the unit interval: the middle one is the image of the limits
        third = ctx.const(1.0) / 3 if not ctx.sym else ctx.const(1) / 3
        ctx.ok('unit value in the middle period', (u >= third - (0 if ctx.sym else 1e-9)) & (u <= 2 * third + (0 if ctx.sym else 1e-9)))
        if not ctx.sym:
            for k in (-1, 1):
                ctx.eq('one period further', p.unit2Domain(u + k / 3), x, tol=1e-5)
        return
    w = ctx.real('w', lo=0.0, hi=1.0)
    if ctx.sym:
        ctx.assume(w > 0)
        ctx.assume(w < 1)
    elif not (1e-6 < w < 1 - 1e-6):
        return
    d = p.unit2Domain(w)
    if not ctx.sym:                                # in the proof: the map is continuous, increases, and goes from 0 to 1 between the limits
        ctx.le('not below the low limit', st.lo - 1e-9 * (1 + abs(st.lo)), d)
        ctx.le('not above the high limit', d, st.hi + 1e-9 * (1 + abs(st.hi)))
    ctx.eq('unit to domain to unit', p.domain2Unit(d), w, tol=1e-5)
    if haslo(st):
        ctx.eq('the low limit to 0', p.domain2Unit(st.lo), 0.0, tol=1e-9)
        ctx.eq('0 to the low limit', p.unit2Domain(ctx.const(0.0)), st.lo, tol=1e-5)
    if not isinf(st.hi):
        ctx.eq('the high limit to 1', p.domain2Unit(st.hi), 1.0, tol=1e-9)
        ctx.eq('1 to the high limit', p.unit2Domain(ctx.const(1.0)), st.hi, tol=1e-5)
    ctx.eq('stays when inside', p.stayInLimits(x), x)
    if not isinf(st.lo):
        ctx.eq('below is put on the limit', p.stayInLimits(st.lo - 1), st.lo)
        ctx.raises('below is refused', ValueError, lambda: p.checkLimit(st.lo - 1))
    if not isinf(st.hi):
        ctx.eq('above is put on the limit', p.stayInLimits(st.hi + 1), st.hi)
        ctx.raises('above is refused', ValueError, lambda: p.checkLimit(st.hi + 1))


def b02(ctx, kind, lim, hist, form):
    p, st = setup(ctx, kind, lim, hist)
    ctx.eq('range', p.getRange(), st.hi - st.lo)
    if not bound(st):
        x = inside(ctx, st, 'x')
        ctx.same('bound', bool(p.isBound()), False)
        ctx.raises('no density without limits', AttributeError, lambda: p.result(x))
        return
    ctx.same('bound', bool(p.isBound()), True)
    x = inside(ctx, st, 'x')
    if form == 'array':
        y = inside(ctx, st, 'y')
        vs = [x, y]
        if haslo(st):
            vs.append(st.lo / 2 if kind == 'JeffreysPrior' else st.lo - 1)
        if not isinf(st.hi):
            vs.insert(0, st.hi + 1)
        xs = ctx.array(vs)
        ctx.eq('density outside', [v for v, z in zip(p.result(xs.copy()), vs) if z is not x and z is not y], [0.0] * (len(vs) - 2))
        ctx.eq('density of an array', p.result(xs.copy()), ctx.array([p.result(v) for v in vs]))
        ctx.eq('log density of an array', p.logResult(xs.copy()), ctx.array([p.logResult(v) for v in vs]))
        xs = ctx.array([x, y])
        ctx.eq('derivative of an array', p.partialLog(xs.copy()), ctx.array([p.partialLog(x), p.partialLog(y)]))
        return
    r = p.result(x)
    k = 3 if st.circ else 1                        # a circular prior maps three periods on the unit interval
    ctx.dscalar('density is the derivative of the map', lambda z: k * p.domain2Unit(z), x, r)
    ctx.eq('the other name', p.partialDomain2Unit(x), r)
    ctx.ok('density is positive', r > 0)
    if haslo(st) or kind == 'ExponentialPrior':
        ctx.eq('no density below', p.result(st.lo - 1), 0.0)
        ctx.eq('log density below', p.logResult(st.lo - 1), -INF)
    if not isinf(st.hi):
        ctx.eq('no density above', p.result(st.hi + 1), 0.0)
        ctx.eq('log density above', p.logResult(st.hi + 1), -INF)
    ctx.eq('log density', p.logResult(x), ctx.np.log(r))
    ctx.dscalar('derivative of the log density', lambda z: p.logResult(z), x, p.partialLog(x))
    if kind in ('UniformPrior', 'CircularUniformPrior', 'JeffreysPrior'):
        F = (lambda z: ctx.np.log(z)) if kind == 'JeffreysPrior' else (lambda z: z)
        ctx.eq('integral', p.getIntegral(), F(st.hi) - F(st.lo))
    else:
        ctx.eq('integral', p.getIntegral(), 1.0)


HIST = [(), ('copy',), ('set:lh',), ('set:l',), ('set:h',), ('attr',), ('unset',), ('set:lh', 'copy'), ('copy', 'set:lh'), ('set:lh', 'set:h'), ('set:lh', 'unset'), ('set:l', 'copy', 'set:lh'), ('copy, then original changed',), ('set:lh', 'set:lh')]
HSC = [('scale',), ('set:lh', 'scale'), ('scale', 'set:lh'), ('attr+scale',), ('scale', 'copy'), ('attr+scale', 'copy')]
for kind in ('UniformPrior', 'JeffreysPrior', 'ExponentialPrior', 'LaplacePrior', 'GaussPrior', 'CauchyPrior', 'CircularUniformPrior'):
    for lim in ('', 'l', 'h', 'lh', 'c', 'p'):
        if lim in ('c', 'p') and kind in ('JeffreysPrior', 'ExponentialPrior') or kind == 'CircularUniformPrior' and lim not in ('c', 'p'):
            continue
        hs = HIST + (HSC if kind in CENTRED + ('ExponentialPrior',) else [])
        if lim in ('c', 'p'):
            hs = [h for h in hs if not any(x in ('set:l', 'set:h', 'unset') for x in h)]
        for h in hs:
            if lim in ('l', 'h') and len(h) > 1:
                continue
            if kind == 'LaplacePrior' and lim == 'lh' and h in (('set:lh', 'set:lh'), ('set:l', 'copy', 'set:lh'), ('set:lh', 'set:h')):
                continue                           # many paths, nothing new
            if any(x.startswith('copy,') for x in h) and lim in ('c', 'p'):
                continue
            nm = '%s %s%s' % (kind, lim or 'free', ''.join(', ' + x for x in h))
            add('B01', nm, b01, kind, lim, h, 'scalar')
            add('B02', nm, b02, kind, lim, h, 'scalar')
            if h in ((), ('set:lh',), ('copy',)):
                add('B01', nm + ' (array)', b01, kind, lim, h, 'array')
                add('B02', nm + ' (array)', b02, kind, lim, h, 'array')


def hyper(ctx, what):
    """hyper parameters hand everything to their prior, also after copying and changing"""
    cls = ctx.cls('NoiseScale' if what == 'noise' else 'HyperParameter')
    way = ctx.choose(['prior', 'limits', 'later'])
    lo = ctx.real('lo', lo=0.1, hi=2.0)
    hi = lo + pos(ctx, 'wd')
    if way == 'prior':
        h = cls(prior=ctx.cls('UniformPrior')(limits=[lo, hi]))
    elif way == 'limits':
        h = cls(limits=[lo, hi])
    else:
        h = cls(prior=ctx.cls('GaussPrior')(center=1.0, scale=2.0))
        h.setLimits([lo, hi])
    h.hypar = pos(ctx, 'v')
    h.stdev = pos(ctx, 'sd')
    c = h.copy() if ctx.choose([0, 1]) else h
    ctx.same('class', type(c) is cls, True)
    ctx.eq('value', c.hypar, h.hypar)
    ctx.eq('standard deviation', c.stdev, h.stdev)
    ctx.same('fixed', c.isFixed, h.isFixed)
    ctx.same('bound', bool(c.isBound()), True)
    ctx.eq('low limit', c.getLimits()[0], lo)
    ctx.eq('high limit', c.getLimits()[1], hi)
    x = lo + (hi - lo) * ctx.const(0.25)
    ref = ctx.cls({'prior': 'UniformPrior', 'limits': 'JeffreysPrior', 'later': 'GaussPrior'}[way])
    ref = ref(limits=[lo, hi]) if way != 'later' else ref(center=1.0, scale=2.0, limits=[lo, hi])
    ctx.eq('domain to unit', c.domain2Unit(x), ref.domain2Unit(x))
    ctx.eq('unit to domain', c.unit2Domain(ctx.const(0.25)), ref.unit2Domain(ctx.const(0.25)))
    ctx.eq('density', c.partialDomain2Unit(x), ref.partialDomain2Unit(x))
    if c is not h:
        c.setLimits([lo * 2, hi * 3])
        ctx.eq('low limit of the original', h.getLimits()[0], lo)
        c.hypar = 7.0
        ctx.eq('value of the original', h.hypar, h.hypar)


add('B01', 'HyperParameter', hyper, 'hyper')
add('B01', 'NoiseScale', hyper, 'noise')
