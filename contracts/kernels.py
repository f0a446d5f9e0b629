"""M06: convolution kernels.  The documented function is written out here once more, with its antiderivative where that is
elementary; everything the kernel reports is compared with it, for any argument."""
import math
from fractions import Fraction as Fr
from vc.prove import add

INF = math.inf


def poly(c, x):
    r = 0
    for a in reversed(c):
        r = r * x + a
    return r


def inte(c):
    return [Fr(0)] + [Fr(a) / (k + 1) for k, a in enumerate(c)]


def mul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += Fr(x) * Fr(y)
    return r


def power(a, n):
    r = [Fr(1)]
    for _ in range(n):
        r = mul(r, a)
    return r


def bspline(n):
    """pieces on |x|: the (n+1)-fold convolution of the unit box, scaled to 1 at 0: [(upper end, coefficients)]"""
    h = Fr(n + 1, 2)
    pieces = []
    lo = Fr(0)
    ends = [h - k for k in range(n + 2) if h - k > 0][::-1]
    for e in ends:
        mid = (lo + e) / 2
        c = [Fr(0)]
        for k in range(n + 2):
            kn = k - h                             # sum over knots below: (-1)^k C(n+1,k) (x - kn)^n / n!
            if mid > kn:
                t = power([-kn, 1], n)
                w = Fr((-1) ** k * math.comb(n + 1, k), math.factorial(n))
                c = [(c[i] if i < len(c) else 0) + w * (t[i] if i < len(t) else 0) for i in range(max(len(c), len(t)))]
        pieces.append((e, c))
        lo = e
    b0 = pieces[0][1][0]
    return [(e, [a / b0 for a in c]) for e, c in pieces], b0


# documented function of |x| on pieces of polynomials: [(upper end, coefficients of powers of |x|)]
POLY = {
    'Biweight': [(Fr(1), power([1, 0, -1], 2))],
    'Parabola': [(Fr(1), [1, 0, -1])],
    'Triangle': [(Fr(1), [1, -1])],
    'Tricube': [(Fr(1), power([1, 0, 0, -1], 3))],
    'Triweight': [(Fr(1), power([1, 0, -1], 3))],
    'Uniform': [(Fr(1), [1])],
}
TRANS = ('Cosine', 'CosSquare', 'Gauss', 'Huber', 'Lorentz', 'Sinc')
KINK = {'Triangle': [0, 1], 'Uniform': [1], 'Parabola': [1], 'Cosine': [1], 'Huber': [1]}


def build(ctx, name):
    if name.startswith('Tophat'):
        n = int(name[6:])
        return ctx.mod('kernels.Tophat').Tophat(n), bspline(n)[0]
    return getattr(ctx.mod('kernels.' + name), name)(), POLY.get(name)


def spec(ctx, name, pieces, ax, where):
    """the documented value at |x| = ax (no jump in between)"""
    np = ctx.np
    if pieces is not None:
        r = 0.0
        for e, c in reversed(pieces):
            r = np.where(ax < num(ctx, e), poly([num(ctx, a) for a in c], ax), r)
        return r
    if name == 'Cosine':
        return np.where(ax <= 1, np.cos(ax * (np.pi / 2)), 0.0)
    if name == 'CosSquare':
        return np.where(ax <= 1, np.cos(ax * (np.pi / 2)) ** 2, 0.0)
    if name == 'Gauss':
        return np.exp(-ax * ax / 2)
    if name == 'Lorentz':
        return 1 / (1 + ax * ax)
    if name == 'Huber':
        return np.where(ax <= 1, 1.0, 1 / np.where(ax <= 1, 1.0, ax))
    if name == 'Sinc':
        z = np.where(ax == 0, 1.0, ax * np.pi)
        return np.where(ax == 0, 1.0, np.sin(z) / z)


def num(ctx, a):
    return ctx.const(Fr(a)) if ctx.sym else float(a)


def kinks(name, pieces):
    if name in ('Tophat0',):
        return [Fr(1, 2)]
    if name == 'Tophat1':
        return [0, 1]
    return KINK.get(name, [])


def arg(ctx, name, pieces, form):
    top = max([float(e) for e, c in pieces or [(1, 0)]])
    sp = [0.0, top, -top, top / 2, -top / 2, 0.25, 1.25] + ([float(e) for e, c in pieces] if pieces else [])
    lim = {} if ctx.sym else dict(lo=-1.3 * top - 0.5, hi=1.3 * top + 0.5)
    if form == 'scalar':
        return ctx.real('x', **lim) if ctx.sym else ctx.real('x', special=sp, **lim)
    return ctx.data('x', special=sp, **lim)


def value(ctx, name, form):
    k, pieces = build(ctx, name)
    np = ctx.np
    x = arg(ctx, name, pieces, form)
    old = ctx.snap(x) if form != 'scalar' else None
    ax = np.abs(x)
    jump = {'Uniform': 1, 'Tophat0': Fr(1, 2)}.get(name)
    y = k.result(x)
    want = spec(ctx, name, pieces, ax, np.where)
    if jump is not None:                           # the value at the jump lies in the middle
        want = np.where(ax == num(ctx, jump), 0.5, want)
    ctx.eq('documented value', y, want)
    ctx.eq('even', k.result(-x), y)
    ctx.eq('of the square', k.resultsq(x * x), y)
    if form != 'scalar':
        ctx.unchanged('argument', [x], old)
    rng = k.range
    ctx.same('bounded', bool(k.isBound()), name not in ('Gauss', 'Huber', 'Lorentz', 'Sinc'))
    if k.isBound():
        top = pieces[-1][0] if pieces else 1
        ctx.eq('range', rng, num(ctx, top))
        t = ctx.real('beyond', pos=True)
        for s in (1, -1):
            z = (rng + t) * s
            z = z if form == 'scalar' else ctx.array([z])
            ctx.eq('zero outside', k.result(z), 0.0)
            ctx.eq('flat outside', k.partial(z), 0.0)
    else:
        ctx.same('range', rng, INF)


def deriv(ctx, name, form):
    k, pieces = build(ctx, name)
    x = arg(ctx, name, pieces, form)
    for q in kinks(name, pieces):                  # no derivative there
        if ctx.sym:
            ctx.assume(ctx.np.abs(x) != num(ctx, q))
        elif (abs(ctx.np.abs(x) - float(q)) < 1e-3).any() if form != 'scalar' else abs(abs(x) - float(q)) < 1e-3:
            return
    (ctx.dscalar if form == 'scalar' else ctx.ddata)('derivative', k.result, x, k.partial(x))


def integral(ctx, name):
    """the antiderivative of the documented function, differentiated back to what the kernel returns; taken between the ends it
    is the integral the kernel declares.  One real argument inside the positive half of each piece; the other half by evenness"""
    k, pieces = build(ctx, name)
    np = ctx.np
    if pieces is not None:
        F = []
        at = Fr(0)
        lo = Fr(0)
        for e, c in pieces:
            ci = inte(c)
            ci[0] = at - poly(ci, lo)
            F.append((lo, e, ci))
            at = poly(ci, e)
            lo = e
        tot = 2 * at
        i = ctx.choose(range(len(F)))
        lo, e, ci = F[i]
        x = ctx.real('x', lo=float(lo), hi=float(e))
        if ctx.sym:
            ctx.assume(x > num(ctx, lo))
            ctx.assume(x < num(ctx, e))
        elif not float(lo) + 2e-3 < x < float(e) - 2e-3:
            return
        ctx.dscalar('derivative of the integral', lambda z: poly([num(ctx, a) for a in ci], z), x, np.ravel(k.result(x))[0] if name.startswith('Tophat') else k.result(x))
        ctx.eq('integral', k.integral, num(ctx, tot), tol=1e-12)
        return
    x = ctx.real('x', lo=0.0, hi=1.0 if k.isBound() else None)
    if ctx.sym:
        ctx.assume(x > 0)
        if k.isBound():
            ctx.assume(x < 1)
        if name == 'Huber':
            ctx.assume(x > 1)
    elif not 2e-3 < x < (0.998 if k.isBound() else 1e9) or name == 'Huber' and x < 1.01:
        return
    PI = np.pi
    F, tot = {
        'Cosine': (lambda z: np.sin(z * PI / 2) * 2 / PI, 4 / PI),
        'CosSquare': (lambda z: z / 2 + np.sin(z * PI) / (2 * PI), 1.0),
        'Gauss': (lambda z: np.sqrt(PI / 2) * erf(ctx, z / np.sqrt(ctx.const(2))), np.sqrt(2 * PI)),   # the definition of erf
        'Lorentz': (lambda z: np.arctan(z), PI),
        'Huber': (lambda z: np.log(z), INF),
        'Sinc': (None, 1.0),
    }[name]
    ctx.eq('integral', k.integral, tot, tol=1e-12)
    if F is not None:
        ctx.dscalar('derivative of the integral', F, x, k.result(x))


def erf(ctx, z):
    if ctx.sym:
        return ctx.mod('GaussPrior').special.erf(z)
    from scipy import special
    return special.erf(z)


def numbers(ctx, name):
    """bounded: the numbers declared, against the kernel itself"""
    k, pieces = build(ctx, name)
    np = ctx.np
    lim = k.range if k.isBound() else None
    if name not in ('Huber',):
        ctx.eq('integral', k.integral, quad(k, lim, name), tol=1e-6)
    if name == 'Huber':
        ctx.same('integral', k.integral, INF)
    h = k.fwhm / 2
    one = lambda z: float(np.asarray(k.result(np.array([z]))).ravel()[0])
    f0 = one(0.0)
    if name in ('Uniform', 'Tophat0'):
        ctx.ok('full width at half maximum', one(h - 1e-9) > 0.5 * f0 and one(h + 1e-9) < 0.5 * f0)
    else:
        ctx.ok('full width at half maximum', abs(one(h) - 0.5 * f0) < 2e-6)


def quad(k, lim, name):
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(12)
    tot = 0.0
    # half pieces between multiples of 1/2, all kinks of the bounded kernels
    top = lim if lim is not None else {'Gauss': 12.0, 'Lorentz': 4000.0, 'Sinc': 4000.5}[name]
    e = np.arange(0.0, top + 1e-9, 0.5) if top <= 12 or name == 'Sinc' else np.concatenate([[0.0], np.geomspace(0.25, 1e8, 400)])
    for a, b in zip(e[:-1], e[1:]):
        z = (a + b) / 2 + x * (b - a) / 2
        tot += float(np.sum(w * k.result(z))) * (b - a) / 2
    if name == 'Sinc':                             # alternating tail: average the last two half periods
        z = np.concatenate([top + (x + 1) / 2])
        tot += 0.5 * float(np.sum(w * k.result(z))) / 2
    return 2 * tot


NAMES = ['Biweight', 'CosSquare', 'Cosine', 'Gauss', 'Huber', 'Lorentz', 'Parabola', 'Sinc', 'Triangle', 'Tricube', 'Triweight', 'Uniform'] + ['Tophat%d' % i for i in range(7)]
for nm in NAMES:
    for form in ('scalar', 'array'):
        if form == 'scalar' and nm.startswith('Tophat') and nm > 'Tophat1':
            continue                               # these take arrays
        n = 2 if nm.startswith('Tophat') and nm > 'Tophat1' else None
        add('M06', '%s value (%s)' % (nm, form), value, nm, form, n=n)
        add('M06', '%s derivative (%s)' % (nm, form), deriv, nm, form, n=n)
    add('M06', '%s integral' % nm, integral, nm)
    add('M06', '%s declared numbers' % nm, numbers, nm, mode='bounded', nreal=2)
