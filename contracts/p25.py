"""lensing cosmology: NFW parameters, critical densities, unit conversions, dark matter scales, infall models"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen, lens, rhoc, sigma_crit

PROPERTY = dict(
    title='Lensing quantities: NFW, critical densities and time scales in consistent units',
    statement="""From a halo's mass, concentration and redshift, the NFW parameters are those of a halo that contains exactly its mass within
    r200, inside which the mean density is 200 times the critical density of that redshift, whether in Mpc or kpc, and for the
    cored variant alike; the angles seen on the sky follow from them, the distances and the critical surface density between that redshift
    and the source. Critical densities per Mpc^2, kpc^2 and arcsec^2 agree, at the deflector and on every plane in front of the source. Einstein
    radii, half-mode masses, thermal masses, free-streaming lengths and SIDM time scales follow their formulas and scalings; conversions
    are inverse to each other. The infall model is the one named, for the host mass given, and setting it up changes nothing of the caller's.""",
    over=['inputs', 'configurations'],
    forall='all masses, concentrations, redshifts, cosmologies, cross sections, infall models and options',
    tests='the tests of these functions need the lensing library and compare single values',
    files=['pyHalo/Halos/lens_cosmo.py'],
    mechanism=[('LensCosmo.nfwParam_physical, nfw_physical2angle, get_sigma_crit_lensing', 'pyHalo/Halos/lens_cosmo.py'),
               ('LensCosmo.__init__', 'pyHalo/Halos/lens_cosmo.py'),
               ('LensCosmo.setup_infall_model', 'pyHalo/Halos/lens_cosmo.py'),
               ('LensCosmo.mthermal_to_halfmode, halfmode_to_thermal, mhm_to_fsl', 'pyHalo/Halos/lens_cosmo.py'),
               ('LensCosmo.sidm_collapse_timescale, sidm_halo_effective_age', 'pyHalo/Halos/lens_cosmo.py')],
)

M = lambda: Real(1e4, 1e14, pool=(1e6, 1e8, 1e13), log=True)
Z = lambda: Real(0.02, 4, pool=(0.5, 0.2))
C = lambda: Real(1, 60, pool=(5.0, 16.0))


@contract('NFW parameters from mass', ['LensCosmo.nfwParam_physical', 'NFWParampyHalo.rho0_c_pseudoNFW', 'LensCosmo.NFW_params_physical'])
def nfw(k):
    lc, s = lens(k)
    m, c, z = k.real('m', M()), k.real('c', C()), k.real('z', Z())
    pseudo = k.choice('cored', [False, True])
    k.begin()
    rho0, rs, r200 = k.run(lc.nfwParam_physical, m, c, z, pseudo)
    sh = k.log(1 + c ** 2) / 2 if pseudo else k.log(1 + c) - c / (1 + c)
    rho_c = rhoc(k, s, z)
    k.eq('r200 is c scale radii', r200, c * rs)
    k.eq('mean density inside r200 is 200 times critical', 4 * np.pi / 3 * r200 ** 3 * 200 * rho_c, m)
    if k.sym:
        k.assume(k.Not(k.Eq(sh, 0)))
    k.eq('the density normalization', rho0, 200 * rho_c * c ** 3 / 3 / sh)
    if k.sym or sh > 0:
        k.eq('the halo contains its mass within r200', 4 * np.pi * rho0 * rs ** 3 * sh, m)
    a = k.run(lc.NFW_params_physical, m, c, z, *([pseudo] if pseudo or k.bool('given') else []))
    k.eq('density per kpc^3', a[0] * 1e9, rho0)
    k.eq('radius in kpc', a[1] / 1e3, rs)
    k.eq('r200 in kpc', a[2] / 1e3, r200)


@contract('unspecified profile is refused', ['LensCosmo.nfwParam_physical'])
def unspecified(k):
    lc, s = lens(k)
    k.begin()
    k.check('refused', k.call(lc.nfwParam_physical, k.real('m', M()), k.real('c', C()), k.real('z', Z()), None).raised(Exception))


@contract('spherical overdensity radius', ['LensCosmo.rN_M'])
def overdensity(k):
    lc, s = lens(k)
    m, z, n = k.real('m', M()), k.real('z', Z()), k.real('N', Real(10, 1e4, pool=(50, 200.0)))
    k.begin()
    r = k.run(lc.rN_M, m * s['h'], z, n)
    k.eq('mean density inside is N times critical', 4 * np.pi / 3 * r ** 3 * n * rhoc(k, s, z), m)


@contract('NFW parameters from mass alone', ['LensCosmo.NFW_params_physical_fromMZ', 'LensCosmo._mc_model'])
def from_mz(k):
    import pyHalo.Halos.concentration as cm
    made = []
    cfn = k.fn('median_c', Real(1, 60))

    def DJ(cosmo, scatter=True, **kw):
        made.append((cosmo, scatter, kw))
        return k.obj(nfw_concentration=lambda m, z: cfn(m, z))
    k.override(cm.ConcentrationDiemerJoyce, DJ)
    lc, s = lens(k)
    m, z, sc = k.real('m', M()), k.real('z', Z()), k.real('scale', Real(0.3, 3, pool=(1.0,)))
    pseudo = k.choice('cored', [False, True])
    given = k.choice('options given', [True, False])
    k.begin()
    for i in range(2):
        got = k.run(lc.NFW_params_physical_fromMZ, m, z, *([sc, pseudo] if given else []))
        if not given:
            sc, pseudo = 1.0, False
        exp = k.run(lc.NFW_params_physical, m, sc * cfn(m, z), z, pseudo)
        for n, g, e in zip(('rho', 'rs', 'r200'), got, exp):
            k.eq('%s of the median halo %d' % (n, i), g, e)
    k.check('median relation of this cosmology without scatter', len(made) == 1 and made[0][0] is s['co'] and made[0][1] is False)


@contract('angles on the sky', ['LensCosmo.nfw_physical2angle', 'LensCosmo.nfw_physical2angle_fromNFWparams', 'LensCosmo.get_sigma_crit_lensing'])
def angles(k):
    zs = k.real('zs', Real(1, 4, pool=(2.0,)))
    lc, s = lens(k, zs=zs)
    m, c, z = k.real('m', M()), k.real('c', C()), k.real('z', Z())
    pseudo = k.choice('cored', [False, True])
    k.begin()
    rho0, rs, _ = k.run(lc.nfwParam_physical, m, c, z, pseudo)
    ra, al = k.run(lc.nfw_physical2angle, m, c, z, pseudo)
    ra2, al2 = k.run(lc.nfw_physical2angle_fromNFWparams, rho0, rs, z, pseudo)
    k.eq('same from parameters: radius', ra, ra2)
    k.eq('same from parameters: deflection', al, al2)
    asec = np.pi / 180 / 3600
    k.eq('scale radius in arcsec', ra * asec * s['da'](z), rs)
    # projected mass inside the scale radius / (pi Rs) over the critical density, as an angle
    r2 = np.sqrt(2)
    g = (r2 * np.log(1 + r2) - np.log(2.)) if pseudo else 1 - np.log(2.)
    k.eq('deflection at the scale radius', al * asec * s['da'](z) * sigma_crit(s, z, zs), 4 * rho0 * rs ** 2 * g)


@contract('projected mass inside the scale radius', sym=False, seeds=1)
def projected(k):
    """the constants of the deflection angles are those of the projected profiles (bounded: numerical integral)"""
    from scipy.integrate import quad
    k.begin()
    r2 = np.sqrt(2)
    for name, f, g in (('NFW', lambda r: 1 / (r * (1 + r) ** 2), 4 * (1 - np.log(2.))),):
        # mass within the cylinder R<1: 4 pi int r^2 f (1 - sqrt(1 - 1/r^2)_{r>1}) dr
        a = quad(lambda r: r ** 2 * f(r), 0, 1)[0] + quad(lambda r: r ** 2 * f(r) * (1 - np.sqrt(1 - 1 / r ** 2)), 1, np.inf)[0]
        k.check(name, abs(4 * np.pi * a / np.pi / g - 1) < 1e-6)


@contract('critical surface density', ['LensCosmo.get_sigma_crit_lensing', 'LensCosmo.sigma_crit_mass', 'LensCosmo.colossus'])
def sigma(k):
    zs = k.real('zs', Real(1, 4, pool=(2.0,)))
    lc, s = lens(k, zs=zs)
    z1, z2, area = k.real('z1', Z()), k.real('z2', Real(0.5, 5)), k.real('area', Real(0, 10, pool=(1.0, 2.0)))
    k.begin()
    k.eq('c^2 D_s/(4 pi G D_d D_ds)', k.run(lc.get_sigma_crit_lensing, z1, z2), sigma_crit(s, z1, z2))
    k.eq('mass of an area, for the source', k.run(lc.sigma_crit_mass, z1, area), area * sigma_crit(s, z1, zs))
    k.check('colossus', k.get(lc, 'colossus') == 'COLOSSUS')


@contract('construction', ['LensCosmo.__init__', 'NFWParampyHalo.rho0_c_pseudoNFW'], again=('LensCosmo',))
def construction(k):
    import pyHalo.Halos.lens_cosmo as L
    from scipy.interpolate import interp1d
    if k.sym:
        k.override(L.un.Quantity, lambda v, unit=None: k.obj(value=v))
    zl = k.real('zl', Real(0.05, 1, pool=(0.5,)))
    zs = zl + k.real('dz', Real(0.1, 3, pool=(1.5,)))
    _, s = lens(k)
    co = s['co']
    n = k.size('planes', 2, 5)
    step = k.real('step', Real(0.01, 0.1))
    planes = k.amap(lambda i: 0.01 + step * i, k.run(range, n))
    asked = []

    def gen(a, b, lens_plane_spacing=None):
        asked.append((a, b))
        return planes, 'widths'
    k.override(L.generate_lens_plane_redshifts, gen)
    given = k.choice('redshifts', ['both', 'no lens', 'no source'])
    model = k.choice('infall', ['INFALL_ZLENS', None])
    k.begin()
    lc = k.run(L.LensCosmo, zl if given != 'no lens' else None, zs if given != 'no source' else None, co, model)
    k.check('cosmology', lc.cosmo is co)
    k.eq('h', lc.h, s['h'])
    k.eq('critical density today over h^2', lc.rhoc * s['h'] ** 2, s['rho'](0))
    k.eq('one arcsec', lc._arcsec * 180 * 3600, np.pi)
    out = k.call(lc.z_accreted_from_zlens, 1e8)
    if model is None:
        k.check('no infall model', out.raised(Exception))
    else:
        k.check('infall model', out.ok)
        if given != 'no lens':
            k.eq('infall model of this deflector', out.value, zl)
    m, c, z = k.real('m', M()), k.real('c', C()), k.real('z', Z())
    _, rs, r200 = k.run(lc.nfwParam_physical, m, c, z)
    k.eq('NFW parameters of this cosmology', 4 * np.pi / 3 * r200 ** 3 * 200 * rhoc(k, s, z), m)
    if given != 'both':
        k.check('no lensing', not k.has(lc, 'sigmacrit'))
        return
    k.eq('lens redshift', lc.z_lens, zl)
    k.eq('source redshift', lc.z_source, zs)
    sc = sigma_crit(s, zl, zs)
    k.eq('per Mpc^2', lc.sigma_crit_lensing, sc)
    k.eq('per kpc^2', lc.sigma_crit_lens_kpc, sc / 1e6)
    k.eq('per arcsec^2', lc.sigmacrit, sc / 1e6 * s['kpa'](zl) ** 2)
    k.eq('D_d', lc.D_d, s['da'](zl))
    k.eq('D_s', lc.D_s, s['da'](zs))
    k.eq('D_ds', lc.D_ds, s['da2'](zl, zs))
    k.check('planes of this system', len(asked) == 1 and asked[0][0] is zl or k.Eq(asked[0][0], zl))
    k.eq('planes up to the source', asked[0][1], zs)
    f = lc.sigma_crit_arcsecond_interp
    on = lambda zi: (s['kpa'](zi) / 1000) ** 2 * sigma_crit(s, zi, zs)
    if k.sym:
        k.same('tabulated on every plane', f.x, planes)
        k.same('per arcsec^2 on every plane', f.y, k.amap(on, planes))
    else:
        for zi in planes:
            k.eq('per arcsec^2 on every plane', float(f(zi)), on(zi))


@contract('with the default cosmology', sym=False, seeds=1)
def default(k):
    """bounded: one native construction on astropy and colossus"""
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.Cosmology.cosmology import Cosmology
    k.begin()
    for lc in (k.run(LensCosmo, 0.5, 1.5), k.run(LensCosmo, 0.5, 1.5, Cosmology()), k.run(LensCosmo)):
        k.check('critical density today', abs(lc.rhoc / 2.7754e11 - 1) < 2e-3)
        k.check('default cosmology', lc.h == Cosmology().h)
        k.check('infall model', k.call(lc.z_accreted_from_zlens, 1e8).ok or lc.z_lens is None)
    lc = k.run(LensCosmo, 0.5, 1.5)
    k.check('host mass of the default infall model', abs(np.mean([lc.z_accreted_from_zlens(1e8) for _ in range(2000)]) - 0.5 - 3.08) < 0.6)


@contract('half-mode masses and thermal masses', ['LensCosmo.halfmode_to_thermal', 'LensCosmo.mhm_to_fsl'])
def wdm(k):
    lc, s = lens(k)
    lc.rhoc = k.pos('rhoc_over_h2', 1e11, 3e11)
    m = k.real('mhm', Real(1e3, 1e12, pool=(1e6, 1e8), log=True))
    k.begin()
    t = k.run(lc.halfmode_to_thermal, m)
    k.eq('thermal mass', t, 2.32 * (s['om'] / 0.25) ** 0.4 * (s['h'] / 0.7) ** 0.8 * (m / 10 ** 9) ** (-0.3))
    l = k.run(lc.mhm_to_fsl, m)
    k.eq('mass inside the half-mode radius', 4 * np.pi / 3 * (l * 13.93 / 2) ** 3 * lc.rhoc * s['h'] ** 2, m)


@contract('half-mode mass of a thermal mass', ['LensCosmo.mthermal_to_halfmode'], sym=False, seeds=25)
def thermal(k):
    """bounded: the inversion is a numerical minimization (scipy), checked on sampled masses and cosmologies"""
    lc, s = lens(k)
    t = k.real('keV', Real(0.5, 30, pool=(0.5, 1.0, 5.3, 10.0, 30.0)))
    k.begin()
    m = k.run(lc.mthermal_to_halfmode, t)
    k.check('inverse', abs(float(np.squeeze(k.run(lc.halfmode_to_thermal, m))) / t - 1) < 2e-3)


@contract('Einstein radii', ['LensCosmo.thetaE_from_sigma', 'LensCosmo.point_mass_factor_z'])
def einstein(k):
    zs = k.real('zs', Real(1, 4, pool=(2.0,)))
    lc, s = lens(k, zs=zs)
    z, v = k.real('z', Z()), k.real('sigma', Real(1, 500, lo_open=True, pool=(160.0, 250.0)))
    co = s['co']
    k.begin()
    th = k.run(lc.thetaE_from_sigma, z, v)
    asec = np.pi / 180 / 3600
    exp = 4 * np.pi * (v / 299792.458) ** 2 * s['da2'](z, zs) / s['da2'](0.0, zs) / asec
    k.check('SIS: 4 pi (v/c)^2 D_ds/D_s', k.And(th > exp * (1 - 1e-5), th < exp * (1 + 1e-5)))
    f = k.run(lc.point_mass_factor_z, z)
    k.eq('point mass: 4 G D_ds/(c^2 D_d D_s)', (f * asec) ** 2 * (co.c ** 2 * s['da'](z) * s['da'](zs)), 4 * co.G * s['da2'](z, zs))
    k.check('positive', f > 0)


@contract('two-halo boost', ['LensCosmo.two_halo_boost', 'LensCosmo.twohaloterm'])
def boost(k):
    import pyHalo.Halos.lens_cosmo as L
    bias = k.fn('two_halo_density', posgen(k, 0.1, 100), impl=lambda r, m, z, d: 30.0 / (1 + r) + 1e-15 * m + z)
    CODE = {'200c': 3.0, '200m': 4.0}
    k.override(L.twoHaloTerm, lambda r, m, z, mdef=None: bias(r, m, z, CODE[mdef]))
    lc, s = lens(k)
    m, z = k.real('m', M()), k.real('z', Z())
    a = k.real('rmin', Real(0.1, 1, pool=(0.5,)))
    b = a + k.real('width', Real(0.1, 20, lo_open=True, pool=(9.5,)))
    rm = s['co']._colossus_cosmo.rho_m(z)
    k.begin()
    r = k.real('r', Real(0.1, 20))
    t = k.run(lc.twohaloterm, r, m, z)
    k.eq('density of the environment over the mean, in h units', t * rm, bias(r * s['h'], m * s['h'], z, 3.0))
    given = k.choice('limits given', [True, False])
    got = k.run(lc.two_halo_boost, m, z, *([a, b] if given else []))
    if not given:
        a, b = 0.5, 10
    k.eq('average over the slice, both sides', got,
         1 + 2 * k.quad(lambda r: bias(r * s['h'], m * s['h'], z, 3.0) / rm, a, b) / (b - a))


@contract('SIDM time scales', ['LensCosmo.sidm_collapse_timescale', 'LensCosmo.nfw_vmax', 'LensCosmo.halo_dynamical_time', 'LensCosmo.mean_free_path'])
def sidm(k):
    lc, s = lens(k)
    rho, rs, sig = k.real('rho', Real(1e5, 1e9, log=True)), k.real('rs', Real(0.01, 30, log=True)), k.real('sigma', Real(0.1, 300, log=True))
    k.begin()
    t = k.run(lc.sidm_collapse_timescale, rho, rs, sig)
    G, year = 4.3e-6, 3.171e-17
    k.eq('collapse time', t, 150 / 0.75 * year / (2.0889e-10 * sig * rho * rs * k.sqrt(4 * np.pi * G * rho * 1.05e-33)))
    k.eq('twice the cross section, half the time', k.run(lc.sidm_collapse_timescale, rho, rs, 2 * sig) * 2, t)
    v = k.run(lc.nfw_vmax, rho, rs)
    k.eq('vmax', v, 1.64 * k.sqrt(G * rho) * rs)
    m, c, z = k.real('m', M()), k.real('c', C()), k.real('z', Z())
    p = k.run(lc.NFW_params_physical, m, c, z)
    if k.sym:
        k.assume(p[0] > 0)
    k.eq('dynamical time r200/vmax', k.run(lc.halo_dynamical_time, m, z, c), 3.086e16 * 3.17e-17 * p[2] / k.run(lc.nfw_vmax, p[0], p[1]))
    mfp = k.run(lc.mean_free_path, rho, sig)
    k.eq('mean free path', mfp * sig * rho * 1.99e33, 3.086e21 ** 2)


@contract('SIDM effective age', ['LensCosmo.sidm_halo_effective_age'])
def age(k):
    lc, s = lens(k)
    z, zi = k.real('z', Real(0, 4, pool=(0.5,))), k.real('z_infall', Real(0, 25, pool=(5.0, 10.0, 12.0)))
    lam, zf = k.real('lambda_t', Real(0, 5, pool=(1.0, 2.0))), k.real('zform', Real(5, 15, pool=(10.0,)))
    given = k.choice('formation given', [True, False])
    k.begin()
    got = k.run(lc.sidm_halo_effective_age, z, zi, lam, **({'zform': zf} if given else {}))
    zf = zf if given else 10.0
    zi = k.min(zi, 10)
    k.eq('time to infall, then stretched time', got, s['age'](zi, zf) + lam * s['age'](z, zi))


MODELS = {'HYBRID_INFALL': 'InfallDistributionHybrid', 'DIRECT_INFALL': 'InfallDistributionDirect', 'GALACTICUS_2024': 'InfallDistributionGalacticus2024',
          'DIRECT_INFALL_CLUSTER': 'InfallDistributionClusterDirect', 'INFALL_ZLENS': 'InfallAtZlens', 'INFALL_0': 'Infall0'}


@contract('infall models', ['LensCosmo.setup_infall_model', 'LensCosmo.z_accreted_from_zlens'])
def infall(k):
    import pyHalo.Halos.lens_cosmo as L
    zl = k.real('zl', Real(0.05, 1, pool=(0.5,)))
    made = []
    zi = k.fn('z_infall', Real(0, 10))

    def stand_in(name):
        def make(*a, **kw):
            made.append((name, a, kw))
            return lambda m: zi(m)
        return make
    for name in sorted(MODELS.values()):
        k.override(getattr(L, name), stand_in(name))
    model = k.choice('model', sorted(MODELS) + ['class', 'unknown', 'unusable class'])
    lm = k.real('lm', Real(14, 15, pool=(14.0, 14.5)))
    how = k.choice('host', ['log_m_host', 'm_host', 'not given'])
    opt = {'log_m_host': lm} if how == 'log_m_host' else {'m_host': 10 ** lm} if how == 'm_host' else {}
    before = dict(opt)
    lc, s = lens(k, zl=zl)
    arg = model
    if model == 'class':
        arg = stand_in('class')
    elif model == 'unusable class':
        def arg(z, *a, **kw):
            raise ValueError('unusable')
    k.begin()
    out = k.call(lc.setup_infall_model, arg, opt)
    k.check('the options given are unchanged', sorted(opt) == sorted(before) and all(opt[q] is before[q] for q in opt))
    if model in ('unknown', 'unusable class'):
        k.check('refused', out.raised(Exception))
        return
    if model == 'DIRECT_INFALL_CLUSTER' and how == 'not given':
        k.check('a cluster mass is needed', out.raised(Exception))
        return
    k.check('accepted', out.ok)
    k.check('one model', len(made) == 1)
    name, a, kw = made[0]
    k.check('the model named', name == MODELS.get(model, 'class'))
    if model != 'INFALL_0':
        k.eq('for the deflector', a[0], zl)
    if model == 'class':
        k.check('options passed on', sorted(kw) == sorted(before) and all(kw[q] is before[q] for q in kw))
    elif model in ('HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER'):
        k.eq('of this host', a[1], lm if how != 'not given' else 13.0)
    m = k.real('m', M())
    k.eq('infall redshifts from the model', k.run(lc.z_accreted_from_zlens, m), zi(m))


@contract('no infall model', ['LensCosmo.z_accreted_from_zlens'])
def no_infall(k):
    lc, s = lens(k, _infall_pdf_set=False)
    k.begin()
    k.check('refused', k.call(lc.z_accreted_from_zlens, k.real('m', M())).raised(Exception))
