"""contract of Kepplers2ndLaw.eccentricAnomaly, used by its callers: the returned E is the root of E - e sin E = M,
sinE and cosE are its sine and cosine (decided for the real solver in U02).
Callers are considered where cos E > -0.9999999999 (the code replaces an infinity there)."""
from vc import loader, terms as tm, sym, garr
from vc.sym import S, term


def install(keppler):
    C = type(keppler)
    NP = loader.NP

    def eccentricAnomaly(self, xdata, params, Estart=None):
        M = self.meanAnomaly(xdata, params)
        E = garr.apply_el(lambda e, m: S(tm.fn('KE', term(e), term(m))), (params[0], M))
        c = NP.cos(E)
        en = sym.engine()
        for v in garr.obj(c).ravel():
            en.assume(sym.cond(v > sym.wrap(-1) + sym.S(tm.const('1/10000000000'))))
        object.__setattr__(self, 'iter', 3)
        object.__setattr__(self, 'sinE', NP.sin(E))
        object.__setattr__(self, 'cosE', c)
        return E
    C.eccentricAnomaly = eccentricAnomaly
