"""lens models of single halos"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen
from .halolib import M, Z, F, classes, world, truncation, build, nfw, moved, history, lensmodel, keys, at, angles, source

PROPERTY = dict(
    title='The lens model of a halo has its position, size and mass',
    statement="""For every single-halo profile other than self-interacting ones, there are exactly as many keyword dictionaries as lens model names, with the
    halo's current position (to 4 decimals where rounded), also after the halo was moved with its realization or its keywords were read before. Scale,
    truncation and core radii in arcsec are the physical ones over kpc/arcsec at the halo's redshift, deflection scales are those of the physical
    profile for the lens, the halo's redshift and the source, and both follow the rescaling of the normalization. NFW, truncated and cored NFW halos
    have the NFW deflection at the scale radius (a core scales it by the projected mass ratio inside the scale radius). Pseudo-Jaffe, generalized NFW,
    and power-law profiles enclose the mass of the NFW halo inside their matching radius, globular clusters their mass inside their size.
    A point mass has the Einstein radius of its mass. Halos given by physical or bound-mass parameters convert these, and only these.""",
    over=['inputs', 'histories'],
    forall='all halo masses, positions, redshifts, concentrations, profile options, rescaling factors, and orders of reading, moving and rescaling',
    tests='the tests compare a few halos with the lensing library at one redshift, never moved or rescaled after being read',
    files=['pyHalo/Halos/HaloModels/NFW.py', 'pyHalo/Halos/HaloModels/TNFW.py', 'pyHalo/Halos/HaloModels/NFW_core.py', 'pyHalo/Halos/HaloModels/PsuedoJaffe.py',
           'pyHalo/Halos/HaloModels/generalized_nfw.py', 'pyHalo/Halos/HaloModels/powerlaw.py', 'pyHalo/Halos/HaloModels/blackhole.py',
           'pyHalo/Halos/HaloModels/gaussianhalo.py', 'pyHalo/Halos/HaloModels/globular_cluster.py', 'pyHalo/Halos/HaloModels/TNFWFromParams.py',
           'pyHalo/Halos/HaloModels/TNFWemulator.py'],
    mechanism=[('lenstronomy_params, lenstronomy_ID of each halo class', 'pyHalo/Halos/HaloModels/'),
               ('rescale_normalization', 'pyHalo/Halos/halo_base.py'),
               ('shift_background_to_source', 'pyHalo/single_realization.py')],
)

@contract('NFW halos', ['NFWFieldHalo.lenstronomy_params', 'NFWFieldHalo.lenstronomy_ID', 'LensCosmo.nfw_physical2angle_fromNFWparams',
                        'TNFWFieldHalo.lenstronomy_params', 'TNFWFieldHalo.lenstronomy_ID'])
def nfw_lens(k):
    zs = source(k)
    lc, s = world(k, zs)
    name = k.choice('class', ['NFWFieldHalo', 'NFWSubhhalo', 'TNFWFieldHalo', 'TNFWSubhalo'])
    h, m, z, sub = build(k, classes()[name], lc, s, sub='Sub' in name, trunc=truncation(k, s))
    h, x, y, norm = history(k, h, lc)
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    T = name[0] == 'T'
    kw = lensmodel(k, h, ['TNFW'] if T else ['NFW'])
    keys(k, kw, 'Rs', 'alpha_Rs', *(['r_trunc'] * T))
    at(k, kw, x, y)
    ra, al = angles(k, lc, s, z, rhos, rs)
    k.eq('scale radius', kw['Rs'], k.round(ra, 10))
    k.eq('deflection at the scale radius', kw['alpha_Rs'], norm * k.round(al, 10))
    if T:
        k.eq('truncation radius', kw['r_trunc'], k.round(s['rt'](m, z) / s['kpa'](z), 10))


@contract('cored NFW halos', ['CoreNFWHalo.lenstronomy_params', 'CoreNFWHalo.lenstronomy_ID', 'CoreNFWHalo.c', 'CoreNFWHalo.profile_args', 'CoreNFWHalo.density_profile_3d'])
def cored(k):
    from pyHalo.Halos.HaloModels.NFW_core import CoreNFWHalo
    from lenstronomy.LensModel.Profiles.cnfw import CNFW
    zs = source(k)
    lc, s = world(k, zs)
    beta = k.real('beta', Real(0.01, 1))
    h, m, z, sub = build(k, CoreNFWHalo, lc, s, sub=k.choice('subhalo', [True, False]), args={'beta': beta})
    h, x, y, norm = history(k, h, lc)
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    kw = lensmodel(k, h, ['CNFW'])
    keys(k, kw, 'Rs', 'alpha_Rs', 'r_core')
    at(k, kw, x, y)
    ra, al = angles(k, lc, s, z, rhos, rs)
    kpa = s['kpa'](z)
    k.eq('scale radius', kw['Rs'], k.round(rs / kpa, 10))
    k.eq('core radius', kw['r_core'], k.round(beta * (rs / kpa), 10))
    m2 = lambda core: k.run(CNFW().mass_2d, rs, rs, 1.0, core * rs)
    k.eq('deflection at the scale radius', kw['alpha_Rs'], norm * k.round(al * m2(beta) / m2(1e-4), 10))
    k.eq('concentration', k.get(h, 'c'), c)
    k.same('profile parameters', list(k.get(h, 'profile_args')), [c, beta])
    r = k.real('r', Real(0.01, 30))
    sc = k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6
    k.eq('density', k.run(h.density_profile_3d, r), sc / kpa * k.run(CNFW().density_lens, r / kpa, kw['Rs'], kw['alpha_Rs'], kw['r_core']))
    o = dict(Rs=k.real('Rs2', Real(0.1, 2)), alpha_Rs=k.real('al2', Real(0.1, 2)), r_core=k.real('rc2', Real(0.1, 2)))
    k.eq('density of other keywords', k.run(h.density_profile_3d, r, o), sc / kpa * k.run(CNFW().density_lens, r / kpa, o['Rs'], o['alpha_Rs'], o['r_core']))


@contract('Pseudo-Jaffe halos', ['PJaffeSubhalo.lenstronomy_params', 'PJaffeSubhalo._rho', 'PJaffeSubhalo.params_physical', 'PJaffeSubhalo.profile_args',
                                 'PJaffeFieldhalo.profile_args', 'PJaffeSubhalo.c', 'PJaffeSubhalo.lenstronomy_ID'], timeout=8.0)
def pjaffe(k):
    from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo, PJaffeFieldhalo
    from lenstronomy.LensModel.Profiles.pseudo_jaffe import PseudoJaffe
    zs = source(k)
    lc, s = world(k, zs)
    sub = k.choice('subhalo', [True, False])
    h, m, z, _ = build(k, PJaffeSubhalo if sub else PJaffeFieldhalo, lc, s, sub=sub)
    phys = k.choice('physical parameters read', ['no', 'before', 'after'])
    if phys == 'before':
        k.get(h, 'params_physical')
    h, x, y, norm = history(k, h, lc)
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    mnfw = 4 * np.pi * rs ** 3 * rhos * (k.log(1 + r200 / rs) - (r200 / rs) / (1 + r200 / rs))
    # mass inside r of rho0/(1+r^2/Ra^2)/(1+r^2/Rs^2); in units of the critical density per area
    unit = lambda r, Ra, Rs: 4 * np.pi * Ra ** 2 * Rs ** 2 / (Ra ** 2 - Rs ** 2) * (Ra * k.arctan(r / Ra) - Rs * k.arctan(r / Rs))
    kpa = s['kpa'](z)
    kw = lensmodel(k, h, ['PJAFFE'])
    keys(k, kw, 'Ra', 'Rs', 'sigma0')
    at(k, kw, x, y, None)
    k.eq('scale radius', kw['Rs'], rs / kpa)
    k.eq('core radius', kw['Ra'], rs / kpa / 100)
    Ra, Rs, R = kw['Ra'], kw['Rs'], r200 / kpa
    rho0 = mnfw / unit(r200 / kpa, rs / kpa / 100, rs / kpa)
    sc = k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6 * kpa ** 2
    k.eq('encloses the mass of the NFW halo', kw['sigma0'], norm * k.run(PseudoJaffe().rho2sigma, rho0, rs / kpa / 100, rs / kpa) / sc)
    if phys != 'no':
        p = k.get(h, 'params_physical')
        for q, v in (('rhos', rhos), ('rs', rs), ('r200', r200)):
            k.eq(q, p[q], v)
        k.eq('central density', p['rho'], norm * m / unit(c * rs, rs / 100, rs))
    k.eq('concentration', k.get(h, 'c'), c)


def radii_of_match(k, c):
    how = k.choice('matching radius', ['default', 'c', 'given'])
    v = dict(default=2.16, c=c, given=k.real('x_match', Real(0.1, 10)))[how]
    return v, dict(default={}, c={'x_match': 'c'}, given={'x_match': v})[how]


@contract('generalized NFW halos', ['GeneralNFWSubhalo.lenstronomy_params', 'GeneralNFWSubhalo._density_norm', 'GeneralNFWSubhalo.profile_args', 'GeneralNFWSubhalo.c',
                                    'GeneralNFWSubhalo.lenstronomy_ID', 'GeneralNFWSubhalo.density_profile_3d', 'GeneralNFWSubhalo.log_profile_slope'])
def gnfw(k):
    from pyHalo.Halos.HaloModels.generalized_nfw import GeneralNFWSubhalo, GeneralNFWFieldHalo
    from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw as P
    zs = source(k)
    lc, s = world(k, zs)
    sub = k.choice('subhalo', [True, False])
    lc.sigma_crit_arcsecond_interp = sca = k.fn('sigma_crit_arcsec', posgen(k, 1e9, 1e12))
    gi, go = k.real('inner slope', Real(0.1, 2.9)), k.real('outer slope', Real(2.5, 6))
    m, z = k.real('m', M()), k.real('z', Z())
    c = s['cfn'](m, s['zi'](m) if sub else z)
    args = dict(gamma_inner=gi, gamma_outer=go)
    xm, more = radii_of_match(k, c)
    args.update(more)
    rtr = None
    if k.choice('transition radius given', [True, False]):
        args['r_transition'] = rtr = k.real('r_transition', Real(0.05, 10))
    mc = None
    if k.choice('mass given', [True, False]):
        args['mass_conservation'] = mc = k.real('mass in the matching radius', Real(1e5, 1e10))
    before = dict(args)
    h, m, z, _ = build(k, GeneralNFWSubhalo if sub else GeneralNFWFieldHalo, lc, s, sub=sub, args=args)
    h, x, y, norm = history(k, h, lc)
    rhos, rs, r200 = k.run(lc.NFW_params_physical, m, c, s['zi'](m) if sub else z, False)
    kpa = s['kpa'](z)
    kw = lensmodel(k, h, ['PSEUDO_DPL'])
    keys(k, kw, 'Rs', 'alpha_Rs', 'gamma_inner', 'gamma_outer')
    at(k, kw, x, y)
    k.eq('inner slope', kw['gamma_inner'], gi)
    k.eq('outer slope', kw['gamma_outer'], go)
    rt = rs if rtr is None else rtr
    target = mc if mc is not None else 4 * np.pi * rt ** 3 * rhos * (k.log(1 + xm) - xm / (1 + xm))
    rho0 = target / k.run(P().mass_3d, xm * rt / kpa, rt / kpa, sca(z), gi, go)
    pseudo = k.run(lc.NFW_params_physical, m, c, s['zi'](m) if sub else z, True)
    rsa = pseudo[1] / kpa
    k.eq('scale radius', kw['Rs'], k.round(rsa, 10))
    k.eq('encloses its mass in the matching radius', kw['alpha_Rs'], norm * k.round(k.run(P().rho02alpha, rho0, rsa, gi, go), 10))
    r = k.real('r', Real(0.01, 30))
    k.eq('density', k.run(h.density_profile_3d, r),
         sca(z) / kpa ** 2 / kpa * k.run(P().density_lens, r / kpa, kw['Rs'], kw['alpha_Rs'], gi, go))
    k.eq('slope', k.run(h.log_profile_slope, r, rs, gi, go), -(gi + go * (r / rs) ** 2) / (1 + (r / rs) ** 2))
    k.eq('concentration', k.get(h, 'c'), c)
    k.same('options are not modified', args, before)


@contract('power-law halos', ['PowerLawSubhalo.lenstronomy_params', 'PowerLawSubhalo.profile_args', 'PowerLawSubhalo.z_eval', 'PowerLawFieldHalo.profile_args',
                              'PowerLawFieldHalo.z_eval', 'PowerLawSubhalo.lenstronomy_ID'])
def powerlaw(k):
    from pyHalo.Halos.HaloModels.powerlaw import PowerLawSubhalo, PowerLawFieldHalo
    from lenstronomy.LensModel.Profiles.splcore import SPLCORE
    zs = source(k)
    lc, s = world(k, zs)
    sub = k.choice('subhalo', [True, False])
    g, xc = k.real('slope', Real(1.1, 2.9)), k.real('core over rs', Real(0.001, 1))
    m, z = k.real('m', M()), k.real('z', Z())
    args = dict(log_slope_halo=g, x_core_halo=xc)
    ev = s['zi'](m) if sub else z
    if sub:
        at_lens = k.choice('evaluate_mc_at_zlens', ['absent', True, False])
        if at_lens != 'absent':
            args['evaluate_mc_at_zlens'] = at_lens
        if at_lens is True:
            ev = z
    c = s['cfn'](m, ev)
    if sub and k.choice('concentration given', [True, False]):
        args['c'] = c = k.real('c', Real(1, 40))
    xm, more = radii_of_match(k, c)
    args.update(more)
    h, m, z, _ = build(k, PowerLawSubhalo if sub else PowerLawFieldHalo, lc, s, sub=sub, args=args)
    h, x, y, norm = history(k, h, lc)
    rhos, rs, r200 = k.run(lc.NFW_params_physical, m, c, ev, False)
    kpa = s['kpa'](z)
    kw = lensmodel(k, h, ['SPL_CORE'])
    keys(k, kw, 'sigma0', 'gamma', 'r_core')
    at(k, kw, x, y, None)
    k.eq('slope', kw['gamma'], g)
    k.eq('core radius', kw['r_core'], xc * rs / kpa)
    sc = k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6 * kpa ** 2
    target = 4 * np.pi * rs ** 3 * rhos * (k.log(1 + xm) - xm / (1 + xm))
    rho0 = target / k.run(SPLCORE().mass_3d, xm * rs / kpa, sc, xc * rs / kpa, g)
    k.eq('encloses the mass of the NFW halo in the matching radius', kw['sigma0'], norm * rho0 * (xc * rs / kpa))


@contract('point masses', ['BlackHole.lenstronomy_params', 'BlackHole.__init__', 'BlackHole.mass_3d', 'BlackHole.profile_args', 'BlackHole.lenstronomy_ID',
                           'LensCosmo.point_mass_factor_z'])
def point(k):
    from pyHalo.Halos.HaloModels.blackhole import BlackHole
    zs = source(k)
    lc, s = world(k, zs)
    fixed = k.choice('fixed', ['default', True, False])
    cls = BlackHole if fixed == 'default' else (lambda *a: BlackHole(*a, fixed_position=fixed))
    h, m, z, sub = build(k, cls, lc, s)
    k.check('stays at its position', h.fixed_position is (fixed is not False))
    h, x, y, norm = history(k, h, lc, rescale=False, move=fixed is False)
    kw = lensmodel(k, h, ['POINT_MASS'])
    keys(k, kw, 'theta_E')
    at(k, kw, x, y, None)
    co = s['co']
    asec = 2 * np.pi / 360 / 3600
    sq = 4 * co.G * m / co.c ** 2 * s['da2'](z, zs) / s['da'](z) / s['da'](zs)
    k.check('an angle', kw['theta_E'] >= 0)
    k.eq('Einstein radius', kw['theta_E'] ** 2 * asec ** 2, sq)
    k.eq('mass at any radius', k.run(h.mass_3d, k.real('r', Real(0.1, 10))), m)
    k.check('no profile parameters', tuple(k.get(h, 'profile_args')) == ())


@contract('Gaussian fluctuations', ['GaussianHalo.lenstronomy_params', 'GaussianHalo.__init__', 'GaussianHalo.z_eval', 'GaussianHalo.lenstronomy_ID', 'GaussianHalo.profile_args'])
def gaussian(k):
    from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
    lc, s = world(k)
    args = {q: k.real(q, Real(-3, 3)) for q in ('amp', 'sigma', 'center_x', 'center_y')}
    k.begin()
    h, m, z, sub = build(k, GaussianHalo, lc, s, args=dict(args))
    kw = lensmodel(k, h, ['GAUSSIAN'])
    keys(k, kw, 'amp', 'sigma')
    for q in args:
        k.eq(q, kw[q], args[q])
    k.check('stays at its position', h.fixed_position is True)
    k.eq('evaluated at its redshift', k.get(h, 'z_eval'), z)
    k.check('no profile parameters', k.get(h, 'profile_args') is None)


@contract('globular clusters', ['GlobularCluster.lenstronomy_params', 'GlobularCluster.profile_args', 'GlobularCluster.__init__', 'GlobularCluster.lenstronomy_ID',
                                'GlobularCluster.density_profile_2d_lenstronomy', 'GlobularCluster.density_profile_3d_lenstronomy', 'GlobularCluster.z_eval'])
def clusters(k):
    from pyHalo.Halos.HaloModels.globular_cluster import GlobularCluster
    from lenstronomy.LensModel.Profiles.splcore import SPLCORE
    zs = source(k)
    lc, s = world(k, zs)
    m, x, y, z = k.real('m', Real(1e4, 1e7)), k.real('x', Real(-2, 2)), k.real('y', Real(-2, 2)), k.real('z', Z())
    g, size, con = k.real('gamma', Real(3.1, 8)), k.real('size [pc]', Real(1, 100)), k.real('concentration', Real(2, 100))
    k.begin()
    h = k.run(GlobularCluster, m, x, y, z, lc, dict(gamma=g, gc_size_pc=size, gc_concentration=con), 0.3)
    k.check('stays at its position', h.fixed_position is True and h.is_subhalo is False)
    for q, v in (('mass', m), ('x', x), ('y', y), ('z', z), ('unique_tag', 0.3), ('z_eval', z)):
        k.eq(q, k.get(h, q), v)
    kw = lensmodel(k, h, ['SPL_CORE'])
    keys(k, kw, 'sigma0', 'gamma', 'r_core')
    at(k, kw, x, y, None)
    kpa = s['kpa'](z)
    kpc = size / 1000
    sc = k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6
    k.eq('slope', kw['gamma'], g)
    k.eq('core radius', kw['r_core'], kpc / con / kpa)
    k.eq('encloses its mass inside its size', kw['sigma0'], m / k.run(SPLCORE().mass_3d, kpc / kpa, sc * kpa ** 2, kpc / con / kpa, g) * (kpc / con / kpa))
    p = k.get(h, 'profile_args')
    rho0 = m / k.run(SPLCORE().mass_3d, kpc, 1.0, kpc / con, g)
    k.same('profile parameters', list(p), [rho0, kpc, g, kpc / con])
    r = k.real('r', Real(1e-4, 0.1))
    k.eq('projected density', k.run(h.density_profile_2d_lenstronomy, r), k.run(SPLCORE().density_2d, r, 0.0, rho0, kpc / con, g))
    k.eq('density', k.run(h.density_profile_3d_lenstronomy, r), sc / kpa * k.run(SPLCORE().density_lens, r / kpa, kw['sigma0'], kw['r_core'], g))


@contract('half-mass radius of globular clusters', ['GlobularCluster.half_mass_radius'], sym=False, seeds=60)
def half(k):
    from pyHalo.Halos.HaloModels.globular_cluster import GlobularCluster
    lc, s = world(k)
    m = k.real('m', Real(1e4, 1e7))
    h = GlobularCluster(m, 0.1, 0.2, 0.5, lc, dict(gamma=k.real('gamma', Real(3.1, 8)), gc_size_pc=k.real('size', Real(1, 100)), gc_concentration=k.real('c', Real(2, 100))), 0.3)
    k.begin()
    r = k.run(lambda: h.half_mass_radius)
    rho0, size, g, rc = h.profile_args
    k.eq('encloses half of the mass', h._prof.mass_3d(r / 1000, rho0, rc, g), m / 2, rtol=1e-5)


@contract('halos given by physical parameters', ['TNFWFromParams.__init__', 'TNFWFromParams.lenstronomy_params', 'TNFWFromParams.params_physical', 'TNFWFromParams.profile_args',
                                                 'TNFWFromParams.density_profile_3d'])
def from_params(k):
    from pyHalo.Halos.HaloModels.TNFWFromParams import TNFWFromParams as C
    zs = source(k)
    lc, s = world(k, zs)
    m, x, y, z = k.real('m', M()), k.real('x [kpc]', Real(-20, 20)), k.real('y [kpc]', Real(-20, 20)), k.real('z', Z())
    rs, rhos, rv, rt, zi = (k.real(q, Real(a, b)) for q, a, b in (('rs', 0.1, 10), ('rhos', 1e5, 1e8), ('rv', 1, 100), ('rt', 0.1, 50), ('z_infall', 0.5, 5)))
    args = {'r_trunc_kpc': rt, 'rs': rs, 'rhos': rhos, 'rv': rv, 'z_infall': zi, 'index': 17}
    h = k.run(C, m, x, y, 3.0, z, True, lc, args, 0.7)
    kpa = s['kpa'](z)
    k.eq('x in arcsec', h.x, x / kpa)
    k.eq('y in arcsec', h.y, y / kpa)
    k.eq('mass', h.mass, m)
    k.check('index kept', h.id == 17 and h.unique_tag == 0.7)
    h, x, y, norm = history(k, h, lc)
    kw = lensmodel(k, h, ['TNFW'])
    keys(k, kw, 'Rs', 'alpha_Rs', 'r_trunc')
    at(k, kw, x, y)
    ra, al = angles(k, lc, s, z, rhos, rs)
    k.eq('scale radius', kw['Rs'], k.round(ra, 10))
    k.eq('deflection at the scale radius', kw['alpha_Rs'], norm * k.round(al, 10))
    k.eq('truncation radius', kw['r_trunc'], rt / kpa)
    p = k.get(h, 'params_physical')
    for q, v in (('rs', rs), ('rv', rv), ('r_trunc_kpc', rt), ('rhos', norm * rhos)):
        k.eq('physical ' + q, p[q], v)
    k.eq('infall', k.get(h, 'z_infall'), zi)
    k.eq('concentration', k.get(h, 'c'), rv / rs)
    k.same('profile parameters', list(k.get(h, 'profile_args')), [rv / rs, rt])
    r = k.real('r', Real(0.01, 30))
    q, t = r / rs, rt / rs
    k.eq('density', k.run(h.density_profile_3d, r), norm * rhos / (q * (1 + q) ** 2) * t ** 2 / (t ** 2 + q ** 2))
    o = dict(rs=k.real('rs2', Real(0.1, 10)), rhos=k.real('rhos2', Real(1e5, 1e8)), r_trunc_kpc=k.real('rt2', Real(0.1, 50)))
    q, t = r / o['rs'], o['r_trunc_kpc'] / o['rs']
    k.eq('density of other parameters', k.run(h.density_profile_3d, r, o), o['rhos'] / (q * (1 + q) ** 2) * t ** 2 / (t ** 2 + q ** 2))
    k.check('parameters given are not modified', set(args) == {'r_trunc_kpc', 'rs', 'rhos', 'rv', 'z_infall', 'index'})
    k.eq('density given is not modified', args['rhos'], rhos)


@contract('emulated subhalos', ['TNFWSubhaloEmulator.__init__', 'TNFWSubhaloEmulator.lenstronomy_params', 'TNFWSubhaloEmulator.params_physical',
                                'TNFWSubhaloEmulator.profile_args', 'TNFWSubhaloEmulator.c', 'TNFWSubhaloEmulator.z_eval', 'TNFWSubhaloEmulator.lenstronomy_ID'])
def emulated(k):
    import pyHalo.Halos.HaloModels.TNFWemulator as E
    zs = source(k)
    lc, s = world(k, zs)
    m, x, y, z = k.real('m', M()), k.real('x [kpc]', Real(-20, 20)), k.real('y [kpc]', Real(-20, 20)), k.real('z', Z())
    f, c = k.real('bound fraction', Real(1e-4, 0.99)), k.real('c', Real(1, 60))
    tau = k.fn('log10 tau', Real(-3, 2))
    E._truncation_radius_interpolator = lambda p: tau(p[0], p[1])
    tag = k.choice('tag', [0.25, None])
    h = k.run(E.TNFWSubhaloEmulator, m, x, y, f * m, c, z, lc, tag)
    kpa = s['kpa'](z)
    k.eq('x in arcsec', h.x, x / kpa)
    k.eq('y in arcsec', h.y, y / kpa)
    k.eq('mass at infall', h.mass, m)
    k.check('subhalo', h.is_subhalo is True)
    if tag is not None:
        k.check('tag', h.unique_tag == 0.25)
    h, x, y, norm = history(k, h, lc)
    kw = lensmodel(k, h, ['TNFW'])
    keys(k, kw, 'Rs', 'alpha_Rs', 'r_trunc')
    at(k, kw, x, y)
    rhos, rs, r200 = k.run(lc.NFW_params_physical, m, c, z, False)
    ra, al = k.run(lc.nfw_physical2angle, m, c, z)
    k.eq('scale radius', kw['Rs'], k.round(ra, 10))
    k.eq('deflection at the scale radius', kw['alpha_Rs'], norm * k.round(al, 10))
    rt = 10 ** tau(c, k.log10(f * m / m)) * ra
    k.eq('truncation radius', kw['r_trunc'], rt)
    p = k.get(h, 'params_physical')
    for q, v in (('rs', rs), ('r200', r200), ('r_trunc_kpc', rt * kpa), ('rhos', norm * rhos)):
        k.eq('physical ' + q, p[q], v)
    k.eq('concentration', k.get(h, 'c'), c)
    k.eq('evaluated at its redshift', k.get(h, 'z_eval'), z)


@contract('fraction of mass left by a truncation', ['tnfw_mass_fraction'])
def fraction(k):
    from pyHalo.Halos.HaloModels.TNFWemulator import tnfw_mass_fraction
    t, c = k.real('tau', Real(1e-3, 100, log=True)), k.real('c', Real(1, 100))
    k.begin()
    got = k.run(tnfw_mass_fraction, t, c)
    # mass of the truncated over that of the untruncated NFW profile inside c scale radii
    m = t ** 2 / (t ** 2 + 1) ** 2 * ((t ** 2 - 1) * (k.log(1 + c) + k.log(t) - k.log(c ** 2 + t ** 2) / 2)
                                      + 2 * t * k.arctan(c / t) - (t ** 2 + 1) * c / (1 + c))
    k.eq('fraction', got, m / (k.log(1 + c) - c / (1 + c)), rtol=1e-6, atol=1e-9)


@contract('truncation radius of a bound mass', ['tau_mf_interpolator'], sym=False, seeds=60)
def inverse(k):
    import pyHalo.Halos.HaloModels.TNFWemulator as E
    import importlib
    c, f = k.real('c', Real(2, 100)), k.real('log10 fraction', Real(-3, -0.02))
    global _INTERP
    try:
        itp = _INTERP
    except NameError:
        itp = _INTERP = E.tau_mf_interpolator()
    k.begin()
    tau = 10 ** float(itp((c, f)))
    k.check('inverse of the mass fraction', abs(np.log10(E.tnfw_mass_fraction(tau, c)) - f) < 0.02)
