"""concentration models on top of uninterpreted median relations"""
from engine.kit import Real
from .common import posgen

M = lambda: Real(1e4, 1e13, pool=(1e6, 1e8), log=True)
Z = lambda: Real(0, 8, pool=(0.0, 0.5, 3.0))
WIDTH = lambda: Real(0, 0.5, lo_open=True, pool=(0.1, 0.2))
CODE = {'diemer19': 1.0, 'ludlow16': 2.0, '200c': 3.0, '200m': 4.0}


def library(k):
    """colossus' median relations and peak heights, as positive functions of what they are given"""
    import pyHalo.Halos.concentration as c
    raw = k.fn('colossus_c', Real(0.2, 60))

    def concentration(m, mdef=None, model=None, z=None):
        one = lambda mi: raw(mi, z, CODE[model], CODE[mdef])
        return k.amap(one, m) if k.is_seq(m) else one(m)
    k.override(c.concentration, concentration)
    nu = k.fn('peak_height', Real(0.1, 5))
    k.override(c.peaks.peakHeight, lambda m, z: nu(m, z))
    rho = k.fn('rho_crit', posgen(k))
    ast = k.obj(h=k.real('h', Real(0.5, 0.9, pool=(0.7,))), critical_density=lambda z: k.obj(value=rho(z)))
    return k.obj(raw=raw, nu=nu, rho=rho, cosmo=ast)


def floor(k, v):
    return k.max(v, 1.2)


def power(k, lib, c0, zeta, beta, pivot, evo, m, z):
    h = lib.cosmo.h
    if evo == 'PEAK_HEIGHT':
        r = lib.nu(m * h, 0.0) / lib.nu(m * h, z)
    else:
        r = lib.rho(z) / lib.rho(0.0)
    return c0 * (lib.nu(m * h, z) / lib.nu(pivot * h, z)) ** -beta * r ** zeta


def cdm_class(k, name='cdm'):
    """a concentration class for cold dark matter; what it was set up with is kept"""
    med = k.fn(name, Real(1.2, 60))

    class CDM(object):
        def __init__(self, cosmo, **kw):
            self.cosmo, self.kw = cosmo, kw

        def nfw_concentration(self, m, z, force_no_scatter=False):
            return k.amap(lambda mi: med(mi, z), m) if k.is_seq(m) else med(m, z)
    CDM.med = staticmethod(med)
    return CDM
