"""single halos in a stand-in world: cosmology, infall model, concentration and truncation models are uninterpreted"""
import numpy as np
from engine.kit import Real
from .common import posgen, lens, sigma_crit, center

M = lambda: Real(1e4, 1e11, pool=(1e6, 1e8, 1e9), log=True)
Z = lambda: Real(0.02, 4, pool=(0.5, 0.2))
F = lambda: Real(0.05, 3, lo_open=True, pool=(0.5, 0.25, 1.0))


def classes():
    from pyHalo.Halos.HaloModels.NFW import NFWFieldHalo, NFWSubhhalo
    from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo, TNFWSubhalo
    return dict(NFWFieldHalo=NFWFieldHalo, NFWSubhhalo=NFWSubhhalo, TNFWFieldHalo=TNFWFieldHalo, TNFWSubhalo=TNFWSubhalo)


def world(k, zs=2.0):
    lc, s = lens(k, zs=zs)
    zi = k.fn('z_infall', Real(0.5, 10))
    asked = []

    def infall(z_lens):
        def model(m):
            asked.append(m)
            return zi(m)
        return model
    k.run(lc.setup_infall_model, infall, {})
    s.update(zi=zi, asked=asked)
    cfn = k.fn('concentration', Real(1, 60))
    conc_asked = []

    def conc(m, z):
        conc_asked.append((m, z))
        return cfn(m, z)
    s.update(cfn=cfn, conc_asked=conc_asked, conc=k.obj(nfw_concentration=conc))
    k.recorded = list(k.recorded) + [asked, conc_asked]
    return lc, s


def truncation(k, s, name='TruncationMultipleRS', rescale=False):
    """a truncation model: a truncation radius for the halo; tidal models also rescale the halo"""
    rt = k.fn('r_trunc', posgen(k, 0.05, 30))
    ft = k.real('tidal rescaling', F()) if rescale else 1.0
    mb = k.fn('m_bound', posgen(k, 1e3, 1e9))
    rb = k.fn('r_trunc_of_bound_mass', posgen(k, 0.05, 30))
    calls = []
    k.recorded = list(k.recorded) + [calls]

    def radius(halo, *a, **kw):
        calls.append('radius')
        if rescale:
            halo.rescale_normalization(ft)
        return rt(halo.mass, halo.z)

    def bound(halo):
        calls.append('bound')
        return mb(halo.mass)

    def from_bound(halo, m, *a, **kw):
        calls.append('from bound')
        if rescale:
            halo.rescale_normalization(ft)
        return rb(halo.mass, m)
    s.update(rt=rt, ft=ft, mb=mb, rb=rb, tcalls=calls)
    return k.obj(name=name, truncation_radius_halo=radius, calculate_mbound=bound, truncation_radius_from_bound_mass=from_bound)


def build(k, cls, lc, s, sub=None, trunc=None, args=None):
    m, z = k.real('m', M()), k.real('z', Z())
    sub = k.bool('subhalo') if sub is None else sub
    x, y = k.real('x', Real(-3, 3)), k.real('y', Real(-3, 3))
    h = k.run(cls, m, x, y, k.real('r3d', Real(0, 200)), z, sub, lc, args if args is not None else {'a': 1}, trunc, s['conc'], k.real('tag', Real(0, 1)))
    return h, m, z, sub


def nfw(k, lc, s, m, z, sub, h):
    """concentration and NFW parameters the halo must have"""
    ze = s['zi'](m) if sub else z
    c = s['cfn'](m, ze)
    return (c,) + tuple(k.run(lc.NFW_params_physical, m, c, ze, False))


def moved(k, h, lc):
    """the halo in a realization aligned with a light ray"""
    from pyHalo.single_realization import Realization
    lc.cosmo.D_C_z = k.fn('D_C', posgen(k, 100, 5000))
    r = k.run(Realization.from_halos, [h], lc, {}, False, [], *center(k), 'GEOMETRY')
    rx, ry = k.fn('ray_x', Real(-2, 2)), k.fn('ray_y', Real(-2, 2))
    d = lc.cosmo.D_C_z(h.z)
    x, y = h.x, h.y
    out = k.run(k.get(r, 'shift_background_to_source'), rx, ry, 0.0)
    return out.halos[0], x + rx(d), y + ry(d)


def history(k, h, lc, rescale=True, move=True, reads=()):
    """-> halo after something happened to it, its position and the factor on its normalization"""
    hist = k.choice('history', ['fresh', 'read again'] + ['moved'] * move + ['rescaled', 'rescaled twice'] * rescale)
    k.begin()
    x, y, norm = h.x, h.y, 1.0
    def read():
        for q in ('lenstronomy_params', 'lenstronomy_params_split') + tuple(reads):
            if hasattr(type(h), q):
                k.get(h, q)
    if hist != 'fresh':
        read()
    if hist == 'moved':
        h, x, y = moved(k, h, lc)
    if hist[:8] == 'rescaled':
        f = k.real('factor', F())
        if hist == 'rescaled':
            k.run(h.rescale_normalization, f)
        else:
            k.run(h.rescale_normalization, f, force=True, log=False)
        norm = f
    if hist == 'rescaled twice':
        read()
        g = k.real('factor 2', F())
        k.run(h.rescale_normalization, g, force=True, log=False)
        norm = f * g
    return h, x, y, norm


def lensmodel(k, h, names, n=1):
    ids = k.get(h, 'lenstronomy_ID')
    k.check('names of the lens models', list(ids) == names)
    k.before(h, 'lenstronomy_params')
    kw, extra = k.get(h, 'lenstronomy_params')
    k.check('one dictionary per lens model', len(kw) == len(names) and extra is None)
    return kw[0]


def keys(k, kw, *names):
    k.check('keywords', set(kw) == set(names) | {'center_x', 'center_y'})


def at(k, kw, x, y, digits=4):
    k.eq('position x', kw['center_x'], k.round(x, 4) if digits else x)
    k.eq('position y', kw['center_y'], k.round(y, 4) if digits else y)


def angles(k, lc, s, z, rhos, rs):
    """scale radius [arcsec] and deflection there [arcsec] of an NFW profile in physical units"""
    # rs in kpc, rhos in M_sun/kpc^3; deflection 4 rhos rs^2 (1 + ln 1/2) / (Sigma_cr D_A arcsec)
    g = 1 + np.log(0.5)
    asec = 2 * np.pi / 360 / 3600
    r = rs / 1000
    return r / s['da'](z) / asec, 4 * (rhos * 1e9) * r ** 2 * g / sigma_crit(s, z, lc.z_source) / s['da'](z) / asec


def source(k):
    return k.real('z_source', Real(1.0, 4, pool=(2.0, 1.5)))


def ages(k, s, z, zi, sub, lam):
    """time before infall (from formation at z=10) once, time since infall times the factor"""
    if not sub:
        return s['age'](z, 10)
    zi = k.min(zi, 10)
    return s['age'](zi, 10.0) + lam * s['age'](z, zi)
