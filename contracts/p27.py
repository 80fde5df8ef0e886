"""massive galaxies and isothermal spheres that replace halos"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import halos, carried_over, realization, lens_cosmo
from .halolib import classes, world, truncation, build, history, lensmodel, keys, at, source
from .specs.extensions import replaced

PROPERTY = dict(
    title='Galaxies replace exactly the massive halos and keep their mass and place',
    statement="""Injecting galaxies turns exactly the halos at or above the mass threshold into galaxies of the chosen model, in place: the other halos,
    their order and the settings of the realization are kept, and an unknown model is refused. A galaxy has the mass, position, redshift, tag, host or field
    status, mobility, infall redshift, concentration and (for subhalos only) bound mass of its halo. An isothermal galaxy deflects by the Einstein radius of
    a velocity dispersion of 0.646 times the maximum circular velocity of the halo. A massive galaxy has slopes 2 and 5, the truncation radius of a
    subhalo or the scale radius of a field halo as scale, and encloses the halo's mass inside its r200. Both follow the rescaling of
    their normalization and where the galaxy is moved.""",
    over=['inputs', 'histories'],
    forall='all realizations, mass thresholds, halo masses, redshifts, concentrations and truncations, rescaling factors, orders of reading and moving',
    tests='the tests inject galaxies for one threshold and compare one profile',
    files=['pyHalo/realization_extensions.py', 'pyHalo/Halos/HaloModels/sis.py'],
    mechanism=[('RealizationExtensions.SIS_injection', 'pyHalo/realization_extensions.py'),
               ('SIS, MassiveGalaxy', 'pyHalo/Halos/HaloModels/sis.py'),
               ('LensCosmo.thetaE_from_sigma', 'pyHalo/Halos/lens_cosmo.py')],
)


@contract('which halos become galaxies', ['RealizationExtensions.SIS_injection'])
def injection(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    import pyHalo.realization_extensions as E
    lc = lens_cosmo(k)
    hs = halos(k, z_infall=Real(0.5, 10), const=dict(lens_cosmo=lc, _args={'a': 1}))
    r = realization(k, hs, lc)
    t = k.real('threshold', Real(0, None, pool=(1e7, 1e8)))
    model = k.choice('model', ['default', 'GNFW', 'SIS', 'sis', None])
    k.begin()
    ext = k.run(X, r)
    parts = k.parts(hs)
    if model in ('sis', None):
        out = k.call(ext.SIS_injection, t, model)
        k.check('unknown model refused', k.Or(out.raised(Exception), k.forall(lambda h: h.mass < t, parts)))
        return
    new = k.run(ext.SIS_injection, t, *([] if model == 'default' else [model]))
    cls = E.SIS if model == 'SIS' else E.MassiveGalaxy
    k.same('halos', new.halos, k.run(replaced, cls, r.halos, t))
    carried_over(k, 'galaxies', new, r)


def inject(k, lc, s, cls, names=('NFWFieldHalo', 'TNFWFieldHalo', 'TNFWSubhalo'), free=False):
    name = k.choice('class', list(names))
    h, m, z, sub = build(k, classes()[name], lc, s, sub='Sub' in name, trunc=truncation(k, s))
    if free:
        first = k.choice('read before', ['nothing', 'lens model', 'maximum velocity'])
        if first == 'lens model':
            k.get(h, 'lenstronomy_params')
        elif first == 'maximum velocity':
            k.get(h, 'vmax_nfw')
        h.fixed_position = k.choice('fixed', [True, False])
    ze = z
    if sub:
        ze = s['zi'](m)
        if not free or k.choice('infall redshift', ['given', 'drawn']) == 'given':
            ze = k.real('z_infall', Real(0.5, 10))
            if not free or first == 'nothing':
                k.run(h.set_infall_redshift, ze)
            else:
                ze = s['zi'](m)
    k.begin()
    g = k.run(cls, h)
    return name, h, g, m, z, sub, ze


@contract('what galaxies keep', ['SIS.__init__', 'SIS.bound_mass', 'MassiveGalaxy.__init__', 'MassiveGalaxy.bound_mass', 'MassiveGalaxy.c'])
def kept(k):
    from pyHalo.Halos.HaloModels.sis import SIS, MassiveGalaxy
    lc, s = world(k)
    cls = k.choice('model', [SIS, MassiveGalaxy])
    name, h, g, m, z, sub, ze = inject(k, lc, s, cls, free=True)
    for q in ('mass', 'x', 'y', 'r3d', 'z', 'unique_tag'):
        k.eq(q, getattr(g, q), getattr(h, q))
    k.check('host or field status', g.is_subhalo is sub)
    k.check('mobility', g.fixed_position is h.fixed_position)
    k.check('cosmology', g.lens_cosmo is lc)
    k.check('kind', g.mdef == ('SIS' if cls is SIS else 'GNFW'))
    if sub:
        k.eq('infall redshift', k.get(g, 'z_infall'), ze)
        k.check('drawn at most once', len(s['asked']) <= 1)
        k.eq('bound mass', k.get(g, 'bound_mass'), k.get(h, 'bound_mass'))
    else:
        k.check('no bound mass in the field', k.read(g, 'bound_mass').raised(Exception))
    k.eq('evaluated at', k.get(g, 'z_eval'), ze)
    if cls is MassiveGalaxy:
        k.eq('concentration', k.get(g, 'c'), s['cfn'](m, ze))


@contract('isothermal galaxies', ['SIS.__init__', 'SIS.lenstronomy_params', 'SIS.lenstronomy_ID', 'SIS.profile_args', 'SIS.bound_mass', 'LensCosmo.thetaE_from_sigma'])
def sis(k):
    from pyHalo.Halos.HaloModels.sis import SIS
    zs = source(k)
    lc, s = world(k, zs)
    name, h, g, m, z, sub, ze = inject(k, lc, s, SIS)
    rhos, rs, r200 = k.run(lc.NFW_params_physical, m, s['cfn'](m, ze), ze, False)
    sigma = 0.646 * 1.64 * k.sqrt(4.3e-6 * rhos * rs ** 2)
    k.eq('velocity dispersion', k.get(g, 'profile_args'), sigma)
    g, x, y, norm = history(k, g, lc)
    kw = lensmodel(k, g, ['SIS'])
    keys(k, kw, 'theta_E')
    at(k, kw, x, y)
    # 4 pi (sigma/c)^2 D_ls/D_s in arcsec, to the accuracy of the rounded constants
    k.eq('Einstein radius', kw['theta_E'], norm * (4 * np.pi * (sigma / 299792.5) ** 2 * s['da2'](z, zs) / s['da2'](0.0, zs) * 206265))


@contract('massive galaxies', ['MassiveGalaxy.__init__', 'MassiveGalaxy.lenstronomy_params', 'MassiveGalaxy.lenstronomy_ID', 'MassiveGalaxy.profile_args',
                               'MassiveGalaxy.bound_mass', 'MassiveGalaxy._alphaRs', 'MassiveGalaxy.c', 'MassiveGalaxy.density_profile_3d_lenstronomy'])
def massive(k):
    from pyHalo.Halos.HaloModels.sis import MassiveGalaxy
    from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw as P
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    from lenstronomy.LensModel.Profiles.nfw import NFW
    zs = source(k)
    lc, s = world(k, zs)
    name, h, g, m, z, sub, ze = inject(k, lc, s, MassiveGalaxy)
    c = s['cfn'](m, ze)
    rhos, rs, r200 = k.run(lc.NFW_params_physical, m, c, ze, False)
    k.eq('concentration', k.get(g, 'c'), c)
    g, x, y, norm = history(k, g, lc)
    kw = lensmodel(k, g, ['PSEUDO_DPL'])
    keys(k, kw, 'alpha_Rs', 'Rs', 'gamma_inner', 'gamma_outer')
    at(k, kw, x, y)
    kpa = s['kpa'](z)
    k.eq('inner slope', kw['gamma_inner'], 2)
    k.eq('outer slope', kw['gamma_outer'], 5)
    scale = s['rt'](m, z) if sub else rs
    k.eq('scale', kw['Rs'], k.round(scale / kpa, 10))
    if name[0] == 'T':
        mass = k.run(TNFW().mass_3d, c * rs, rs, rhos, s['rt'](m, z) / rs)
    else:
        mass = k.run(NFW().mass_3d, c * rs, rs, rhos)
    sc = k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6
    unit = k.run(P().mass_3d_lens, r200 / kpa, scale / kpa, 1.0, 2.0, 5.0) * sc * kpa ** 2
    k.eq('encloses the mass of the halo', kw['alpha_Rs'], norm * k.round(mass / unit, 10))
    r = k.real('r', Real(0.01, 30))
    k.eq('density', k.run(g.density_profile_3d_lenstronomy, r), sc / kpa * k.run(P().density_lens, r / kpa, kw['Rs'], kw['alpha_Rs'], 2.0, 5.0))
