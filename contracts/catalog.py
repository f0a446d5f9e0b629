"""Every shipped model in the configurations the checks quantify over.

entry: name -> Cfg(build(ctx) -> model, k = number of input columns (None: 1-D), dom(ctx, m) -> parameter vector,
xkw = restrictions on the inputs, deriv = input derivative defined, kind)"""
import numpy as np


class Cfg(object):
    def __init__(self, name, cls, build, k=None, dom=None, xdata=None, deriv=True, part=True, n=None, fixable=True, maxpaths=400, timeout=240, mode='proof', numpart=False, note='', copyable=True):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def params(self, ctx, m, name='p'):
        if self.dom:
            return self.dom(ctx, m, name)
        return ctx.mvec(m, name)

    def x(self, ctx, p, name='x'):
        if self.xdata:
            return self.xdata(ctx, p, name)
        return ctx.data(name, k=self.k)


CAT = {}


def mk(name, cls, *a, **kw):
    opt = {k: kw.pop(k) for k in list(kw) if k in ('k', 'dom', 'xdata', 'deriv', 'part', 'n', 'fixable', 'maxpaths', 'timeout', 'mode', 'numpart', 'note', 'copyable')}
    b = kw.pop('build', None)
    CAT[name] = Cfg(name, cls, b or (lambda ctx, extra=None: ctx.model(cls, *a, **dict(kw, **(extra or {})))), **opt)


for c in ('GaussModel', 'ArctanModel', 'LorentzModel', 'VoigtModel', 'PseudoVoigtModel', 'SincModel', 'ExpModel', 'LogisticModel', 'EtalonModel', 'SineDriftModel'):
    mk(c, c)
mk('ExpModel-decay', 'ExpModel', decay=True)
mk('SineModel', 'SineModel')
mk('SineModel-phase', 'SineModel', phase=True)
mk('SineAmpModel', 'SineAmpModel', 0.7)
for d in (0, 1, 2, 3, 5):
    mk('PolynomialModel-%d' % d, 'PolynomialModel', d)
for d in (0, 1, 2, 3, 4, 6):
    mk('ChebyshevPolynomialModel-%d' % d, 'ChebyshevPolynomialModel', d)
for o, p in ((1, 1.0), (2, 2.5), (3, 0.5)):
    mk('HarmonicModel-%d' % o, 'HarmonicModel', o, p)
for e in (0, 1, 2, 3):
    mk('PowerModel-%d' % e, 'PowerModel', e)
mk('PowerModel-half', 'PowerModel', 0.5, xdata=lambda ctx, p, name: ctx.data(name, pos=True))
mk('PowerModel-neg', 'PowerModel', -1, xdata=lambda ctx, p, name: ctx.data(name, pos=True))


def _plx(ctx, p, name):
    if not ctx.sym:
        return ctx.data(name + 'd', pos=True) + p[1]
    x = ctx.data(name)
    ctx.assume(x > p[1])
    return x


mk('PowerLawModel', 'PowerLawModel', xdata=_plx)


def _padedom(ctx, m, name):
    return ctx.vec(name, m.npars, lo=0.1, hi=3.0)


for nu, de in ((0, 1), (1, 1), (2, 1), (1, 2), (2, 3), (3, 0)):
    mk('PadeModel-%d-%d' % (nu, de), 'PadeModel', nu, de, xdata=lambda ctx, p, name: ctx.data(name, pos=True), dom=_padedom)
mk('PolySineAmpModel-0', 'PolySineAmpModel', 0, 0.6, k=2, fixable=False)
mk('PolySineAmpModel-1', 'PolySineAmpModel', 1, 0.6, k=2, fixable=False)
mk('PolySineAmpModel-2', 'PolySineAmpModel', 2, 1.3, k=2, fixable=False)
for d in (0, 1, 2, 3):
    mk('PolySurfaceModel-%d' % d, 'PolySurfaceModel', d, k=2)
KN = [-1.0, 0.5, 1.0, 3.0]
for o in (0, 1, 2, 3, 4):
    mk('SplinesModel-%d' % o, 'SplinesModel', knots=KN, order=o)
mk('SplinesModel-2knots', 'SplinesModel', knots=[0.0, 1.0], order=3)
mk('SplinesModel-range', 'SplinesModel', nrknots=4, min=0.0, max=3.0, order=2)


def _inx(lo, hi):
    return lambda ctx, p, name: ctx.data(name, lo=lo, hi=hi, special=())


for o in (0, 1, 2, 3):
    mk('BasicSplinesModel-%d' % o, 'BasicSplinesModel', knots=KN, order=o, xdata=_inx(-1.0, 3.0))
mk('BasicSplinesModel-uniform', 'BasicSplinesModel', knots=[0.0, 1.0, 2.0, 3.0, 4.0], order=3, xdata=_inx(0.0, 4.0))
for o in (1, 2, 3):
    mk('BSplinesModel-%d' % o, 'BSplinesModel', knots=KN, order=o, xdata=_inx(-0.99, 2.99))
for o in (1, 2, 3):
    mk('SineSplineModel-%d' % o, 'SineSplineModel', 0.4, [0.0, 1.0, 2.5], order=o, fixable=False)
for o, d in ((1, 1), (2, 0), (3, 2)):
    mk('SineSplineDriftModel-%d-%d' % (o, d), 'SineSplineDriftModel', [0.0, 1.0, 2.5], order=o, degree=d, fixable=False)
mk('SurfaceSplinesModel-1', 'SurfaceSplinesModel', [[0.0, 1.0, 2.0], [-1.0, 0.5]], order=1, k=2, deriv=False, fixable=False)
mk('SurfaceSplinesModel-2', 'SurfaceSplinesModel', [[0.0, 1.0], [-1.0, 0.5, 2.0]], order=2, k=2, deriv=False, fixable=False)
mk('SurfaceSplinesModel-32', 'SurfaceSplinesModel', [[0.0, 1.0], [-1.0, 0.5]], order=[3, 2], k=2, deriv=False, fixable=False)
mk('ProductModel', 'ProductModel', build=lambda ctx, extra=None: ctx.model('ProductModel', [ctx.model('PolynomialModel', 1), ctx.model('GaussModel')], **(extra or {})), k=2, fixable=False, deriv=False,
   dom=lambda ctx, m, name: ctx.vec(name, 5, pos=[4]))
mk('ProductModel-3', 'ProductModel', build=lambda ctx, extra=None: ctx.model('ProductModel', [ctx.model('ExpModel'), ctx.model('PolynomialModel', 1), ctx.model('SineModel')], **(extra or {})), k=3, fixable=False, deriv=False)
mk('EtalonDriftModel', 'EtalonDriftModel', k=2)
for nd, no, off, nrm in ((1, 1, False, True), (2, 1, True, True), (1, 2, False, True), (2, 2, True, True), (2, 2, False, False), (2, 3, True, False)):
    mk('SoftMaxModel-%d-%d-%s-%s' % (nd, no, 'off' if off else 'no', 'normed' if nrm else 'raw'), 'SoftMaxModel', ndim=nd, ndout=no, offset=off, normed=nrm, k=None if nd == 1 else nd, fixable=False)
KERNELS = ['Biweight', 'CosSquare', 'Cosine', 'Gauss', 'Huber', 'Lorentz', 'Parabola', 'Sinc', 'Tophat', 'Triangle', 'Tricube', 'Triweight', 'Uniform']


def _kernel(ctx, kn):
    return ctx.cls('kernels.' + kn)()


for kn in KERNELS:
    if kn == 'Huber':
        continue
    mk('KernelModel-' + kn, 'KernelModel', build=lambda ctx, extra=None, kn=kn: ctx.model('KernelModel', kernel=_kernel(ctx, kn), **(extra or {})))
mk('RadialVelocityModel', 'RadialVelocityModel', build=lambda ctx, extra=None: kepler(ctx, ctx.model('RadialVelocityModel', **(extra or {}))),
   dom=lambda ctx, m, name: ctx.array([ctx.real(name + '0', lo=0.0, hi=0.95), ctx.real(name + '1', pos=True), ctx.real(name + '2', pos=True), ctx.real(name + '3'), ctx.real(name + '4')]))
for sph in (True, False):
    mk('StellarOrbitModel-%s' % ('spherical' if sph else 'rectangular'), 'StellarOrbitModel',
       build=lambda ctx, extra=None, sph=sph: kepler(ctx, ctx.model('StellarOrbitModel', spherical=sph, **(extra or {}))), fixable=False,
       dom=lambda ctx, m, name: ctx.array([ctx.real(name + '0', lo=0.0, hi=0.95), ctx.real(name + '1', pos=True), ctx.real(name + '2', pos=True)] + [ctx.real(name + str(i)) for i in (3, 4, 5, 6)]))


def kepler(ctx, m):
    """contract of the Kepler solver (decided in U02): eccentricAnomaly(e, M) is the root of E - e sin E = M"""
    if ctx.sym:
        import contracts.kepler as kp
        kp.install(m.keppler)
    return m


def parvec(ctx, m, name='p'):
    return ctx.mvec(m, name)
