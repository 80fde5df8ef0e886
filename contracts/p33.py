"""preset models built on others: self-interacting, ultra-light, black holes, imported subhalos"""
from engine.api import contract
from engine.kit import Real, Bool, Int
from .common import posgen, lens, rhoc
from .presetlib import Derived
from .specs.uldm import bartelmann

PROPERTY = dict(
    title='Derived presets pass on every option and apply exactly their own physics on top',
    statement="""The self-interacting, black hole and ultra-light presets render the underlying cold or warm realization with every option the caller
    gave, and then apply their own step once, to that realization, with the requested parameters: core collapse by mass, conversion by
    cross section in the given mass bins, black holes joined to the halos, fluctuations scaled from the reference lens to the surface density of
    this host. The ultra-light mass function turns over at the published mass and starts at the published minimum mass. Imported
    subhalos (simulation trees, emulators) keep position, mass, scale, truncation and infall redshift in consistent units; exactly the subhalos of the tree
    inside the virial radius, aperture and mass range are taken and joined to line-of-sight halos only.""",
    over=['inputs', 'configurations'],
    forall='every value of every option, every catalogue of subhalos and every projection angle',
    tests='the tests of these presets need the lensing library and look at default settings',
    files=['pyHalo/PresetModels/sidm.py', 'pyHalo/PresetModels/mbh.py', 'pyHalo/PresetModels/uldm.py', 'pyHalo/PresetModels/external.py',
           'pyHalo/Halos/galacticus_util/galacticus_util.py', 'pyHalo/Halos/galacticus_util/galacticus_filter.py', 'pyHalo/utilities.py'],
    mechanism=[('SIDM_core_collapse', 'pyHalo/PresetModels/sidm.py'), ('SIDM_parametric', 'pyHalo/PresetModels/sidm.py'),
               ('CDM_plus_BH', 'pyHalo/PresetModels/mbh.py'), ('ULDM', 'pyHalo/PresetModels/uldm.py'),
               ('DMFromGalacticus', 'pyHalo/PresetModels/external.py'), ('DMSubhalosFromEmulator', 'pyHalo/PresetModels/external.py'),
               ('JointLOSWithEmulator', 'pyHalo/PresetModels/external.py')],
)

SIDM = {'two_halo_contribution': True, 'delta_power_law_index': 0.0, 'subhalo_spatial_distribution': 'UNIFORM'}


@contract('core collapse by mass', ['SIDM_core_collapse'], seeds=20)
def core_collapse(k):
    from pyHalo.PresetModels.cdm import CDM
    from pyHalo.PresetModels.sidm import SIDM_core_collapse
    w = Derived(k, CDM)
    given = w.options(SIDM_core_collapse, CDM)
    own = {n: k.obj(option=n) for n in ('mass_ranges_subhalos', 'mass_ranges_field_halos', 'probabilities_subhalos', 'probabilities_field_halos')}
    profile, x = k.choice('profile', ['TNFWC', 'SPL_CORE', 'GNFW']), k.real('x_core_halo', Real(0.01, 0.5))
    some = k.bool('profile given')
    k.begin()
    if some:
        out = k.run(SIDM_core_collapse, **given, **own, collapsed_halo_profile=profile, x_core_halo=x, log_slope_halo=-3.0)
    else:
        out = k.run(SIDM_core_collapse, **given, **own, x_core_halo=x, log_slope_halo=-3.0)
        profile = 'TNFWC'
    k.check('one cold realization', len(w.calls) == 1)
    w.passed(0, given, SIDM)
    w.order('core_collapse_by_mass', 'add_core_collapsed_halos')
    w.step(0, 'CDM', own)
    w.step(1, 'CDM', {'indexes': 'INDEX', 'halo_profile': profile, 'x_core_halo': x, 'log_slope_halo': -3.0})
    k.check('only these profile options', sorted(w.steps[1][2]) == ['halo_profile', 'indexes', 'log_slope_halo', 'x_core_halo'])
    k.check('the collapsed realization is returned', out.what == 'add_core_collapsed_halos')


DEFAULTS = {'sigma_sub': 0.025, 'log10_sigma_sub': None, 'log_mlow': 6.0, 'log_mhigh': 10.0, 'shmf_log_slope': -1.9, 'cone_opening_angle_arcsec': 6.0,
            'log_m_host': 13.3, 'LOS_normalization': 1.0, 'geometry_type': 'DOUBLE_CONE'}


@contract('default settings', ['SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins', 'CDM_plus_BH'], seeds=20)
def defaults(k):
    from pyHalo.PresetModels.cdm import CDM
    import pyHalo.PresetModels.sidm as sidm
    import pyHalo.PresetModels.mbh as mbh
    w = Derived(k, CDM)
    name = k.choice('preset', ['SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins', 'CDM_plus_BH'])
    f = getattr(mbh if name == 'CDM_plus_BH' else sidm, name)
    own = {'SIDM_core_collapse': ('R1', 'R2', 'P1', 'P2'), 'SIDM_parametric': ('R', 'S'), 'SIDM_parametric_fixedbins': (1.0, 2.0), 'CDM_plus_BH': (-3.0, -1.0)}[name]
    zl, zs = k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0))
    k.begin()
    k.run(f, zl, zs, *own)
    got = w.calls[0][1]
    k.same('lens', (got['z_lens'], got['z_source']), (zl, zs))
    for q in DEFAULTS:
        k.same(q, got[q], DEFAULTS[q])
    k.same('c_host', got['c_host'], 6.0)
    if name == 'SIDM_core_collapse':
        k.same('massive halos', got['mass_threshold_sis'], 5 * 10 ** 10)
    else:
        k.check('no conversion of massive halos', got['mass_threshold_sis'] is None)
    if 'parametric' in name:
        q = w.steps[0][2]
        k.check('conversion', q['log10_subhalo_time_scaling'] == 0.0 and q['evolving_SIDM_profile'] is True and q['x_core_halo'] is None)


@contract('conversion by cross section', ['SIDM_parametric'], seeds=20)
def parametric(k):
    from pyHalo.PresetModels.cdm import CDM
    from pyHalo.PresetModels.sidm import SIDM_parametric
    w = Derived(k, CDM)
    given = w.options(SIDM_parametric, CDM, own=('add_globular_clusters', 'kwargs_globular_clusters'))
    bins, sections = k.obj(option='bins'), k.obj(option='cross sections')
    scale, evolving, core = k.real('time scaling', Real(-0.5, 0.5)), k.bool('evolving'), k.real('x_core_halo', Real(0.01, 0.5))
    gc = k.choice('clusters', [True, False])
    opts = {'log10_mgc_mean': 5.0, 'log10_mgc_sigma': 0.5, 'rendering_radius_arcsec': 0.1}
    k.begin()
    out = k.run(SIDM_parametric, log10_mass_ranges=bins, log10_effective_cross_section_list=sections, log10_subhalo_time_scaling=scale,
                evolving_SIDM_profile=evolving, x_core_halo=core, add_globular_clusters=gc, kwargs_globular_clusters=opts if gc else None, **given)
    k.check('one cold realization', len(w.calls) == 1)
    w.passed(0, given, SIDM)
    w.order(*(['toSIDM_from_cross_section'] + ['add_globular_clusters'] * gc))
    w.step(0, 'CDM', {'mass_bin_list': bins, 'log10_effective_cross_section_list': sections, 'log10_subhalo_time_scaling': scale})
    k.same('evolving profile', w.steps[0][2]['evolving_SIDM_profile'], evolving)
    k.same('core size', w.steps[0][2]['x_core_halo'], core)
    k.same('all halos that had time', w.steps[0][2]['collapse_probability'], 1.0)
    if gc:
        w.step(1, 'toSIDM_from_cross_section', opts)
    k.check('the last step is returned', out.what == w.steps[-1][0] and out.parent is w.steps[-1][1])


@contract('conversion in two mass bins', ['SIDM_parametric_fixedbins', 'SIDM_parametric'], seeds=30)
def fixedbins(k):
    from pyHalo.PresetModels.cdm import CDM
    from pyHalo.PresetModels.sidm import SIDM_parametric_fixedbins
    w = Derived(k, CDM)
    own = ('add_globular_clusters', 'kwargs_globular_clusters', 'log_mlow', 'log_mhigh')
    given = w.options(SIDM_parametric_fixedbins, CDM, own=own)
    lo, hi = k.real('log_mlow', Real(5, 9.5, pool=(8.0,))), k.real('log_mhigh', Real(9.6, 11))
    s1, s2 = k.real('section below', Real(0, 3)), k.real('section above', Real(0, 3))
    scale, evolving, core = k.real('time scaling', Real(-0.5, 0.5)), k.bool('evolving'), k.real('x_core_halo', Real(0.01, 0.5))
    gc = k.choice('clusters', [True, False])
    opts = {'log10_mgc_mean': 5.0, 'log10_mgc_sigma': 0.5, 'rendering_radius_arcsec': 0.1}
    k.begin()
    out = k.call(SIDM_parametric_fixedbins, log10_sigma_eff_mlow_8=s1, log10_sigma_eff_8_mhigh=s2, log10_subhalo_time_scaling=scale, log_mlow=lo, log_mhigh=hi,
                 evolving_profile=evolving, x_core_halo=core, add_globular_clusters=gc, kwargs_globular_clusters=opts if gc else None, **given)
    k.check('refused exactly when the lower bin would be empty', k.Eq(out.raised(Exception), lo > 8))
    if not out.ok:
        return
    k.check('one cold realization', len(w.calls) == 1)
    w.passed(0, dict(given, log_mlow=lo, log_mhigh=hi), SIDM)
    w.order(*(['toSIDM_from_cross_section'] + ['add_globular_clusters'] * gc))
    q = w.steps[0][2]
    k.same('mass bins', [list(b) for b in q['mass_bin_list']], [[lo, 8.0], [8.0, hi]])
    k.same('cross sections', list(q['log10_effective_cross_section_list']), [s1, s2])
    k.same('options', (q['log10_subhalo_time_scaling'], q['evolving_SIDM_profile'], q['x_core_halo']), (scale, evolving, core))
    if gc:
        w.step(1, 'toSIDM_from_cross_section', opts)


@contract('black hole seeds', ['CDM_plus_BH'], seeds=30)
def black_holes(k):
    from pyHalo.PresetModels.cdm import CDM
    from pyHalo.PresetModels.mbh import CDM_plus_BH
    w = Derived(k, CDM)
    given = w.options(CDM_plus_BH, CDM, own=('add_globular_clusters', 'kwargs_globular_clusters'))
    v = {n: k.real(n, Real(a, b)) for n, a, b in (('log10_mass_ratio', -5, -2), ('log10_occupation_frac', -3, 0), ('log10_mlow_halos_subres', 4, 5),
                                                 ('log10_min_mbh', 3, 4), ('log10_mass_maximum', 6, 7))}
    gc = k.choice('clusters', [True, False])
    opts = {'log10_mgc_mean': 5.0, 'log10_mgc_sigma': 0.5, 'rendering_radius_arcsec': 0.1}
    k.begin()
    out = k.run(CDM_plus_BH, **v, **given, add_globular_clusters=gc, kwargs_globular_clusters=opts if gc else None)
    k.check('one cold realization', len(w.calls) == 1)
    w.passed(0, given, {})
    w.order(*(['add_black_holes', 'join'] + ['add_globular_clusters'] * gc))
    w.step(0, 'CDM', {'log10_mass_ratio': v['log10_mass_ratio'], 'f': 10 ** v['log10_occupation_frac'], 'log10_mlow_halos_subres': v['log10_mlow_halos_subres'],
                      'log10_min_mbh': v['log10_min_mbh'], 'log_mlow_halos': given['log_mlow'], 'log10_mass_maximum': v['log10_mass_maximum'],
                      'LOS_normalization': given['LOS_normalization']})
    pair = [w.steps[1][1].what, w.steps[1][2]['other'].what]
    k.check('black holes joined to the halos', sorted(pair) == ['CDM', 'add_black_holes'])
    if gc:
        w.step(2, 'join', opts)
    k.check('the last step is returned', out.what == w.steps[-1][0])


@contract('minimum mass and wavelength of ultra-light dark matter', ['MinHaloMassULDM.__init__', 'MinHaloMassULDM.__call__', 'MinHaloMassULDM.m_min',
                                                                     'de_broglie_wavelength'])
def uldm_scales(k):
    from pyHalo.utilities import MinHaloMassULDM, de_broglie_wavelength
    om = k.fn('Om', Real(0.05, 0.99))
    cosmo = k.obj(Om=om)
    lm, lo, z, v = k.real('log10_m_uldm', Real(-22.5, -19)), k.real('log_mlow', Real(5, 9)), k.real('z', Real(0, 3, pool=(0.0,))), k.real('v', Real(50, 400))
    zeta = lambda q: (18 * k.pi ** 2 + 82 * (om(q) - 1) - 39 * (om(q) - 1) ** 2) / om(q)
    k.assume(k.And(zeta(z) > 0, zeta(0) > 0))
    k.begin()
    m = k.run(MinHaloMassULDM, lm, cosmo, lo)
    got = k.run(m, z)
    mass = k.run(k.get(m, 'm_min'), z)
    lam = k.run(de_broglie_wavelength, lm, v)
    want = 4.4e7 * (10 ** (lm + 22)) ** (-1.5) * (1 + z) ** 0.75 * (zeta(z) / zeta(0)) ** 0.25
    k.eq('minimum mass of Schive et al. 2014', mass, want, rtol=1e-6)
    k.eq('but not below the requested minimum', got, k.max(k.log10(mass), lo), rtol=1e-6)
    k.eq('wavelength in kpc', lam, 1.2 * (1e-22 / 10 ** lm) * (100 / v), rtol=1e-6)


@contract('ultra-light dark matter', ['ULDM'], seeds=60)
def uldm(k):
    import pyHalo.PresetModels.uldm as u
    import pyHalo.pyhalo as entry
    import pyHalo.utilities as ut
    import pyHalo.concentration_models as conc
    from pyHalo.PresetModels.wdm import WDM
    w = Derived(k, WDM)
    own = ('log10_m_uldm', 'log_mlow')
    given = w.options(u.ULDM, WDM, own=own)
    for n, g in (('log_m_host', Real(12.5, 14, pool=(13.3,))), ('z_lens', Real(0.1, 1.0, pool=(0.5,))), ('z_source', Real(1.2, 4.0, pool=(2.0,)))):
        given[n] = k.real('own ' + n, g)
    zl, zs, mh = given['z_lens'], given['z_source'], given['log_m_host']
    lm, lo = k.real('log10_m_uldm', Real(-22.5, -19)), k.real('log_mlow', Real(5, 9))
    plaw, prof = k.real('uldm_plaw', Real(0.2, 0.5)), k.choice('profile', ['ULDM', 'TNFW'])
    amp, size, disp = k.real('log10_fluc_amplitude', Real(-2, 0)), k.real('size', Real(0.01, 0.1)), k.real('dispersion', Real(0.1, 0.3))
    nf, vel, rein, ncut = k.real('n_fluc_scale', Real(0.5, 2)), k.real('velocity', Real(100, 300)), k.real('r_ein', Real(0.5, 3, pool=(1.0,))), k.int('n_cut', 10, 1000)
    args = k.choice('fluctuations', [{'rmin': 0.9, 'rmax': 1.1}, {}, None])
    kpc, crit = k.fn('kpc_per_asec', posgen(k, 4, 9)), k.fn('sigma crit', posgen(k, 1e9, 5e9))
    rho, rs = k.fn('rho_s of a host', posgen(k, 1e5, 1e7)), k.fn('r_s of a host', posgen(k, 2, 90))
    median = k.fn('concentration of a host', posgen(k, 3, 9))
    w.lens_cosmo.cosmo = k.obj(kpc_proper_per_asec=kpc)
    w.lens_cosmo.get_sigma_crit_lensing = crit
    w.lens_cosmo.NFW_params_physical = lambda m, c, z: (rho(m, c, z), rs(m, c, z), 'R200')
    entries, models = [], []
    co = k.obj(Om=k.fn('Om', Real(0.05, 0.99)))
    k.override(entry.pyHalo, lambda a, b, kw=None: (entries.append((a, b, kw)), k.obj(astropy_cosmo=co))[1])
    k.override(conc.preset_concentration_models, lambda name, kw=None: (lambda co: (models.append((name, co)), k.obj(nfw_concentration=median))[1], {}))
    k.begin()
    out = k.call(u.ULDM, log10_m_uldm=lm, log_mlow=lo, uldm_plaw=plaw, mdef_halos=prof, log10_fluc_amplitude=amp, fluctuation_size_scale=size,
                 fluctuation_size_dispersion=disp, n_fluc_scale=nf, velocity_scale=vel, r_ein=rein, n_cut=ncut, flucs=args is not None,
                 flucs_shape='ring', flucs_args=args or {}, **given)
    if args == {}:
        k.check('fluctuations without a shape are refused', out.raised(Exception))
        return
    k.check('accepted', out.ok)
    k.check('one warm realization, in the requested cosmology', len(w.calls) == 1 and entries[0][2] is given['kwargs_cosmo'])
    got = w.calls[0][1]
    m22 = 10 ** lm / 1e-22
    k.eq('turnover mass', 10 ** got['log_mc'], 1.6e10 * m22 ** (-4.0 / 3), rtol=1e-6)
    low = got['log_mlow']
    z = k.real('z', Real(0, 3))
    k.eq('minimum mass', k.run(low, z), k.run(k.run(ut.MinHaloMassULDM, lm, co, lo), z), rtol=1e-6)
    d = got['kwargs_density_profile']
    k.check('profile options', sorted(d) == ['log10_m_uldm', 'scale_nfw', 'uldm_plaw'] and d['scale_nfw'] is True)
    k.same('profile options: values', (d['log10_m_uldm'], d['uldm_plaw']), (lm, plaw))
    passed_but(w, given, {'mdef_subhalos': prof, 'mdef_field_halos': prof}, ('log_mc', 'log_mlow', 'kwargs_density_profile'))
    if args is None:
        k.check('no fluctuations', w.steps == [] and out.value.what == 'WDM')
        return
    w.order('add_ULDM_fluctuations')
    lam = 1.2 * (1e-22 / 10 ** lm) * (100 / vel)
    w.step(0, 'WDM', {'args': args, 'shape': 'ring', 'n_cut': ncut, 'n_fluc_scale': nf})
    s = w.steps[0][2]
    k.eq('wavelength', s['de_Broglie_wavelength'], lam, rtol=1e-6)
    k.eq('size', s['fluctuation_size'], lam * size, rtol=1e-6)
    k.eq('spread of sizes', s['fluctuation_size_variance'], lam * size * disp, rtol=1e-6)
    k.check('host concentrations in this cosmology', models == [('DIEMERJOYCE19', co)])
    k.check('the fluctuations are returned', out.value.what == 'add_ULDM_fluctuations')

    def kappa(mass, c, z, source, angle):
        x = angle * kpc(z) / rs(mass, c, z)
        f = k.run(bartelmann, x)
        return 2 * rho(mass, c, z) * rs(mass, c, z) * f / crit(z, source)
    ref = kappa(10 ** 13.3, median(10 ** 13.3, zl), 0.5, 2.0, 1.0)
    here = kappa(10 ** mh, median(10 ** mh, zl), zl, zs, rein)
    k.eq('amplitude, scaled to the convergence of this host', s['fluctuation_amplitude'], 10 ** amp * (10 ** lm / 1e-22) ** -0.5 * here / ref, rtol=1e-6)


def passed_but(w, given, fixed, skip):
    sig = [f for f in w.sig][0]
    names, defaults = w.sig[sig]
    keep = w.sig[sig]
    w.sig[sig] = ([n for n in names if n not in skip], defaults)
    w.passed(0, given, fixed)
    w.sig[sig] = keep


@contract('ultra-light dark matter: settings', ['ULDM'], seeds=20)
def uldm_defaults(k):
    import pyHalo.PresetModels.uldm as u
    import pyHalo.pyhalo as entry
    import pyHalo.utilities as ut
    from pyHalo.PresetModels.wdm import WDM
    w = Derived(k, WDM)
    co = k.obj(Om=k.fn('Om', Real(0.05, 0.99)))
    k.override(entry.pyHalo, lambda a, b, kw=None: k.obj(astropy_cosmo=co))
    z = k.real('z', Real(0, 3))
    zl, zs, s = k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0)), k.real('sigma_sub', Real(0.01, 0.2))
    k.begin()
    k.run(u.ULDM, zl, zs, -21.0, flucs=False, sigma_sub=s)
    got = w.calls[0][1]
    k.same('lens', (got['z_lens'], got['z_source']), (zl, zs))
    for q in DEFAULTS:
        if q not in ('sigma_sub', 'log10_sigma_sub', 'log_mlow'):
            k.same(q, got[q], DEFAULTS[q])
    k.eq('minimum mass', k.run(got['log_mlow'], z), k.run(k.run(ut.MinHaloMassULDM, -21.0, co, 6.0), z), rtol=1e-6)
    k.check('published models', [got['mass_function_model_subhalos'], got['mass_function_model_fieldhalos'], got['concentration_model_subhalos'],
                                 got['concentration_model_fieldhalos']] == ['SHMF_SCHIVE2016', 'SCHIVE2016', 'LAROCHE2022', 'LAROCHE2022'])
    k.same('core radius slope', got['kwargs_density_profile']['uldm_plaw'], 1 / 3)
    k.same('sigma_sub', got['sigma_sub'], s)
    k.check('requested amplitude is used', got['log10_sigma_sub'] is None and got['log10_dNdA'] is None)


def emulated(k, n):
    """catalogue columns of an emulator"""
    cols = (('mass', Real(1e6, 1e10)), ('c', Real(3, 30)), ('bound', Real(1e5, 1e9)), ('z_infall', Real(0.5, 5)), ('rt', Real(1e-4, 1e-2)),
            ('x', Real(-0.02, 0.02)), ('y', Real(-0.02, 0.02)))
    return [k.array(q, n, g) for q, g in cols]


@contract('subhalos from an emulator', ['DMSubhalosFromEmulator', 'TNFWFromParams.__init__'], seeds=60)
def emulator(k):
    import pyHalo.pyhalo as entry
    import pyHalo.Cosmology.geometry as geo
    from pyHalo.PresetModels.external import DMSubhalosFromEmulator
    lc, s = lens(k, k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0)))
    zl, zs = lc.z_lens, lc.z_source
    lc.cosmo.D_C_transverse = k.fn('D_C_transverse', posgen(k))
    n = k.size('n', 0)
    cols = emulated(k, n)
    angle = k.real('cone_opening_angle', Real(2, 12))
    given = k.choice('angle', ['given', 'default'])
    entries, geos = [], []
    k.override(entry.pyHalo, lambda a, b, kw=None: (entries.append((a, b)), k.obj(lens_cosmo=lc, cosmology=lc.cosmo))[1])
    k.override(geo.Geometry, lambda *a: (geos.append(a), 'GEOMETRY')[1])
    k.begin()
    args = (zl, zs, lambda: cols) + ((angle,) if given == 'given' else ())
    r = k.run(DMSubhalosFromEmulator, *args)
    k.check('in this lens', entries == [(zl, zs)] or (entries[0][0] is zl and entries[0][1] is zs))
    k.check('geometry', len(geos) == 1 and geos[0][0] is lc.cosmo and geos[0][1] is zl and geos[0][2] is zs and geos[0][4] == 'DOUBLE_CONE'
            and r.geometry == 'GEOMETRY' and r.lens_cosmo is lc)
    k.eq('opening angle', geos[0][3], angle if given == 'given' else 8.0)
    k.check('no mass sheet', r.apply_mass_sheet_correction is False and r.rendering_classes == [None])
    rho = rhoc(k, s, zl)
    kpa = s['kpa'](zl)
    m, c, b, zi, rt, x, y = cols
    hs = r.halos
    r200 = lambda q: (3 * q / (4 * k.pi * 200 * rho)) ** (1.0 / 3) * 1e3
    k.same('masses', k.map(lambda h: h.mass, hs), m)
    k.same('x in arcsec', k.map(lambda h: h.x, hs), k.map(lambda q: q * 1e3 / kpa, x))
    k.same('y in arcsec', k.map(lambda h: h.y, hs), k.map(lambda q: q * 1e3 / kpa, y))
    k.same('redshifts', k.map(lambda h: h.z, hs), k.map(lambda q: zl, m))
    k.check('subhalos', k.forall(lambda h: h.is_subhalo, hs))
    k.same('infall redshifts', k.map(lambda h: k.get(h, 'z_infall'), hs), zi)
    par = lambda h, q: k.get(h, 'params_physical')[q]
    k.same('truncation radii in kpc', k.map(lambda h: par(h, 'r_trunc_kpc'), hs), k.map(lambda q: q * 1e3, rt))
    k.same('virial radii in kpc', k.map(lambda h: par(h, 'rv'), hs), k.map(r200, m))
    k.same('scale radii in kpc', k.map(lambda h: par(h, 'rs'), hs), k.map(lambda q: r200(q[0]) / q[1], k.zip(m, c)))
    k.same('densities', k.map(lambda h: par(h, 'rhos'), hs),
           k.map(lambda d: rho * 200.0 / 3 * d ** 3 / (k.log(1 + d) - d / (1 + d)) / 1e9, c))


@contract('emulated subhalos joined to the line of sight', ['JointLOSWithEmulator'], seeds=20)
def joint(k):
    import pyHalo.PresetModels.external as ext
    import pyHalo.preset_models as presets
    zl, zs, angle = k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0)), k.real('cone_opening_angle', Real(2, 12))
    sub, los, joins = [], [], []
    emu = k.obj(join=lambda other: (joins.append(other), 'JOINT')[1])
    other = k.obj(join=lambda o: (joins.append(o), 'JOINT')[1])
    names = ('z_lens', 'z_source', 'emulator_data_function', 'cone_opening_angle_arcsec')
    k.override(ext.DMSubhalosFromEmulator, lambda *a, **kw: (sub.append(dict(zip(names, a), **kw)), emu)[1])
    k.override(presets.preset_model_from_name, lambda name: lambda *a, **kw: (los.append((name, dict(zip(('z_lens', 'z_source'), a), **kw))), other)[1])
    norm = k.real('LOS_normalization', Real(0, 2))
    data = k.obj(what='EMULATOR')
    k.begin()
    out = k.run(ext.JointLOSWithEmulator, zl, zs, data, angle, 'WDM', LOS_normalization=norm, log_mc=7.7, sigma_sub=0.0)
    k.check('one of each, joined', out == 'JOINT' and len(sub) == 1 and len(los) == 1 and len(joins) == 1 and (joins[0] is other or joins[0] is emu))
    k.check('emulator', sub[0]['z_lens'] is zl and sub[0]['z_source'] is zs and sub[0]['emulator_data_function'] is data and sub[0]['cone_opening_angle_arcsec'] is angle)
    name, kw = los[0]
    k.check('line of sight model', name == 'WDM' and kw['z_lens'] is zl and kw['z_source'] is zs and kw['cone_opening_angle_arcsec'] is angle
            and kw['LOS_normalization'] is norm and kw['log_mc'] == 7.7 and kw['sigma_sub'] == 0.0 and len(kw) == 6)


NODES = (('positionOrbitalX', Real(-0.5, 0.5)), ('positionOrbitalY', Real(-0.5, 0.5)), ('positionOrbitalZ', Real(-0.5, 0.5)),
         ('densityNormalizationTidalTruncationNFW', Real(1e13, 1e16)), ('radiusTidalTruncationNFW', Real(1e-4, 1e-2)),
         ('darkMatterOnlyRadiusVirial', Real(0.05, 0.8)), ('darkMatterProfileScaleRadius', Real(1e-4, 1e-2)), ('satelliteBoundMass', Real(1e5, 1e10)),
         ('massHaloEnclosedCurrent', Real(1e6, 1e11)), ('redshiftLastIsolated', Real(0.5, 6)), ('concentration', Real(3, 30)))


def catalogue(k):
    """nodes of a simulation output"""
    n = k.size('nodes', 0)
    data = {}
    for q, g in NODES:
        data[q] = k.array(q, n, g)
    return n, data


@contract('node filters', ['nodedata_filter_tree', 'nodedata_filter_subhalos', 'nodedata_filter_halos', 'nodedata_filter_range', 'nodedata_apply_filter'],
          seeds=60)
def filters(k):
    import pyHalo.Halos.galacticus_util.galacticus_filter as g
    n, data = catalogue(k)
    data['nodeIsIsolated'] = k.array('isolated', n, Int(0, 1))
    lo, hi = k.real('low', Real(1e6, 1e9)), k.real('high', Real(1e9, 1e11))
    k.begin()
    iso, m = data['nodeIsIsolated'], data['massHaloEnclosedCurrent']
    k.same('subhalos', k.run(g.nodedata_filter_subhalos, data), k.map(lambda v: k.Eq(v, 0), iso))
    k.same('hosts', k.run(g.nodedata_filter_halos, data), k.map(lambda v: k.Not(k.Eq(v, 0)), iso))
    inside = k.run(g.nodedata_filter_range, data, (lo, hi), 'massHaloEnclosedCurrent')
    k.same('range', inside, k.map(lambda v: k.And(v > lo, v < hi), m))
    kept = k.run(g.nodedata_apply_filter, data, inside)
    k.check('every column', sorted(kept) == sorted(data))
    for q in data:
        k.same('rows ' + q, kept[q], k.map(lambda p: p[1], k.filter(lambda p: k.And(p[0] > lo, p[0] < hi), k.zip(m, data[q]))))


@contract('nodes inside the virial radius of their host', ['nodedata_filter_virialized', 'nodedata_filter_halos'], seeds=60)
def virialized(k):
    import pyHalo.Halos.galacticus_util.galacticus_filter as g
    trees = k.choice('trees', [1, 2, 3])
    names = ('positionOrbitalX', 'positionOrbitalY', 'positionOrbitalZ', 'darkMatterOnlyRadiusVirial')
    own = k.choice('names', ['default', 'own'])
    first = k.choice('host', ['first', 'last'])
    cols = {q: [] for q in names + ('nodeIsIsolated', 'custom_treeOutputOrder')}
    want = []
    for t in range(trees):
        n = k.choice('satellites %d' % t, [0, 2])
        rv = k.real('virial radius %d' % t, Real(0.1, 0.5))
        for i in range(n + 1):
            host = i == (0 if first == 'first' else n)
            p = [k.real('%s %d %d' % (q, t, i), Real(-0.4, 0.4)) for q in 'xyz']
            r = k.real('radius %d %d' % (t, i), Real(0.1, 0.5))
            for q, v in zip(names, p + [rv if host else r]):
                cols[q].append(v)
            cols['nodeIsIsolated'].append(1 if host else 0)
            cols['custom_treeOutputOrder'].append(t)
            want.append((p, rv))
    import numpy as np
    k.begin()
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    util = GalacticusUtil()
    if own == 'own':
        util.PARAM_ISOLATED, util.PARAM_X = 'isolated', 'x'
        cols['isolated'], cols['x'] = cols.pop('nodeIsIsolated'), cols.pop('positionOrbitalX')
    out = k.run(g.nodedata_filter_virialized, {q: k.arr(v) for q, v in cols.items()}, *((util,) if own == 'own' else ()))
    k.same('inside', out, k.arr([k.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2) < rv for p, rv in want]))


@contract('halos from simulation trees', ['DMFromGalacticus', 'TNFWFromParams.__init__'], seeds=60)
def galacticus(k):
    import pyHalo.PresetModels.external as ext
    import pyHalo.preset_models as presets
    lc, s = lens(k, 0.5, k.real('z_source', Real(1.2, 4.0)))
    lc.cosmo.D_C_transverse = k.fn('D_C_transverse', posgen(k))
    zs = lc.z_source
    n, data = catalogue(k)
    data['nodeIsIsolated'] = k.array('isolated', n, Int(0, 1))
    data['custom_treeIndex'] = k.array('trees', n, Int(1, 3))
    data['id'] = k.array('id', n, Int(0, 10 ** 6))
    virial = k.array('virialized', n, Bool())
    seen, calls, joins = [], [], []
    k.override(ext.nodedata_filter_virialized, lambda d, u=None: (seen.append((d, u)), virial)[1])
    los = k.obj(lens_cosmo=lc, join=lambda other: (joins.append(other), 'JOINED')[1])
    k.override(presets.preset_model_from_name, lambda name: lambda **kw: (calls.append((name, kw)), los)[1])
    theta, phi = k.real('theta', Real(0, 3.14)), k.real('phi', Real(0, 6.28))
    bound = k.bool('mass range is bound')
    lo, hi = k.real('log_mlow', Real(5, 8)), k.real('log_mhigh', Real(8, 11))
    angle, tree, norm = k.real('angle', Real(2, 120)), k.int('tree', 1, 3), k.real('LOS_normalization', Real(0, 2))
    model = k.choice('line of sight', ['CDM', 'WDM'])
    k.begin()
    out = k.run(ext.DMFromGalacticus, data, zs, angle, tree, lo, hi, mass_range_is_bound=bound, proj_angle_theta=theta, proj_angle_phi=phi,
                preset_model_los=model, LOS_normalization=norm)
    k.check('joined once to the line of sight', out == 'JOINED' and len(joins) == 1 and len(calls) == 1)
    name, kw = calls[0]
    k.check('line-of-sight halos only', name == model and kw['sigma_sub'] == 0.0 and sorted(kw) ==
            ['LOS_normalization', 'cone_opening_angle_arcsec', 'sigma_sub', 'z_lens', 'z_source'])
    k.check('in the same lens', kw['z_source'] is zs and kw['z_lens'] == 0.5 and kw['cone_opening_angle_arcsec'] is angle and kw['LOS_normalization'] is norm)
    k.check('virial filter on all nodes', len(seen) == 1 and seen[0][0] is data)
    ct, st, cp, sp = k.cos(theta), k.sin(theta), k.cos(phi), k.sin(phi)
    xh, yh = (cp * ct, sp * ct, -st), (-sp, cp, 0.0)
    q = [data[c] for c, _ in NODES] + [data['nodeIsIsolated'], data['custom_treeIndex'], data['id'], virial]
    kpa = s['kpa'](0.5)
    col = {c: i for i, (c, _) in enumerate(NODES)}
    proj = lambda v, u: 1e3 * (v[0] * u[0] + v[1] * u[1] + v[2] * u[2])
    mass = col['satelliteBoundMass' if bound else 'massHaloEnclosedCurrent']
    keep = lambda v: k.And(k.Eq(v[len(NODES)], 0), k.Eq(v[len(NODES) + 1], tree), v[len(NODES) + 3], v[mass] > 10 ** lo, v[mass] < 10 ** hi,
                           k.sqrt(proj(v, xh) ** 2 + proj(v, yh) ** 2) < angle / 2 * kpa)
    kept = k.filter(keep, k.zip(*q))
    sub = joins[0]
    k.check('no mass sheet', sub.apply_mass_sheet_correction is False and sub.rendering_classes == [None] and sub.lens_cosmo is lc)
    hs = sub.halos
    par = lambda h, w: k.get(h, 'params_physical')[w]
    k.same('masses at infall', k.map(lambda h: h.mass, hs), k.map(lambda v: v[col['massHaloEnclosedCurrent']], kept))
    k.same('x in arcsec', k.map(lambda h: h.x, hs), k.map(lambda v: proj(v, xh) / kpa, kept))
    k.same('y in arcsec', k.map(lambda h: h.y, hs), k.map(lambda v: proj(v, yh) / kpa, kept))
    k.same('distance to the host in kpc', k.map(lambda h: h.r3d, hs), k.map(lambda v: 1e3 * k.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2), kept))
    k.same('redshifts', k.map(lambda h: h.z, hs), k.map(lambda v: 0.5, kept))
    k.check('subhalos', k.forall(lambda h: h.is_subhalo, hs))
    k.same('infall redshifts', k.map(lambda h: k.get(h, 'z_infall'), hs), k.map(lambda v: v[col['redshiftLastIsolated']], kept))
    rs = lambda v: v[col['darkMatterProfileScaleRadius']] * 1e3
    k.same('scale radii in kpc', k.map(lambda h: par(h, 'rs'), hs), k.map(rs, kept))
    k.same('virial radii in kpc', k.map(lambda h: par(h, 'rv'), hs), k.map(lambda v: v[col['concentration']] * rs(v), kept))
    k.same('truncation radii in kpc', k.map(lambda h: par(h, 'r_trunc_kpc'), hs), k.map(lambda v: v[col['radiusTidalTruncationNFW']] * 1e3, kept))
    k.same('densities', k.map(lambda h: par(h, 'rhos'), hs), k.map(lambda v: 4 * v[col['densityNormalizationTidalTruncationNFW']] / 1e9, kept))


@contract('selection of single nodes and of a projected aperture', ['nodedata_filter_r2d', 'project_r2d', 'nodedata_select_subhalo'], seeds=40)
def selections(k):
    import pyHalo.Halos.galacticus_util.galacticus_filter as g
    n = k.size('nodes', 0)
    names = ('positionOrbitalX', 'positionOrbitalY', 'positionOrbitalZ', 'satelliteBoundMass')
    data = {q: k.array(q, n, Real(-0.5, 0.5)) for q in names}
    normal = [k.real(q, Real(0.2, 1.0)) for q in ('nx', 'ny', 'nz')]
    most = k.real('r2d_max', Real(0.05, 0.6))
    m = [k.real('mass %d' % i, Real(1e6, 1e9)) for i in range(3)]
    which = k.choice('id', [4, 9, 7])
    k.begin()
    out = k.run(g.nodedata_filter_r2d, data, most, k.arr(normal))
    r = k.run(g.project_r2d, data['positionOrbitalX'], data['positionOrbitalY'], data['positionOrbitalZ'], k.arr(normal))
    nn = normal[0] ** 2 + normal[1] ** 2 + normal[2] ** 2
    dist = lambda p: k.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2 - (p[0] * normal[0] + p[1] * normal[1] + p[2] * normal[2]) ** 2 / nn)
    pos = k.zip(*[data[q] for q in names[:3]])
    k.same('projected radii', r, k.map(dist, pos), atol=1e-9)
    k.same('inside', out, k.map(lambda v: v < most, r))
    one = k.run(g.nodedata_select_subhalo, {'id': k.arr([4, 9, 7]), 'mass': k.arr(m)}, which)
    k.check('the node with this id', one['id'] == which and sorted(one) == ['id', 'mass'])
    k.eq('its mass', one['mass'], m[[4, 9, 7].index(which)])


@contract('reading a simulation output', ['GalacticusUtil.hdf5_read_galacticus_nodedata', 'GalacticusUtil.hdf5_read_custom_nodedata',
          'GalacticusUtil.hdf5_read_output_indices', 'GalacticusUtil.hdf5_read_nodecount_total', 'GalacticusUtil.read_nodedata_galacticus',
          'GalacticusUtil.hdf5_access_output_n_nodedata', 'GalacticusUtil.hdf5_read_dset'], seeds=60, sym=False)
def reader(k):
    import h5py
    import numpy as np
    import os
    import tempfile
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    outputs = k.choice('outputs', [(1,), (3, 10), (2, 9, 11)])
    trees = k.choice('trees', [1, 2, 4])
    wanted = k.choice('columns', [None, 'a', ['a', 'b']])
    which = k.choice('output', ['last', 'first'])
    whole = k.choice('other datasets', ['nodes only', 'all'])
    via = k.choice('given', ['file', 'path'])
    k.begin()
    rng = np.random.default_rng(k.size('file', 0, 10 ** 6))
    folder = tempfile.mkdtemp()
    path = os.path.join(folder, 'f.hdf5')
    content = {}
    with h5py.File(path, 'w') as f:
        top = f.create_group('Outputs')
        top.create_group('Other')
        for o in outputs:
            counts = rng.integers(1, 4, trees)
            total = int(counts.sum())
            index = rng.permutation(20)[:trees] + 1
            grp = top.create_group('Output%d' % o)
            grp['mergerTreeCount'], grp['mergerTreeIndex'] = counts, index
            grp['mergerTreeStartIndex'] = np.concatenate([[0], np.cumsum(counts)[:-1]])
            nd = grp.create_group('nodeData')
            cols = {q: rng.normal(size=total) for q in ('a', 'b', 'c')}
            for q, v in cols.items():
                nd[q] = v
            nd['short'] = np.arange(total + 1.0)
            cols['short'] = np.arange(total + 1.0)
            content[o] = (cols, counts, index, total)
    util = GalacticusUtil()
    o = outputs[-1] if which == 'last' else outputs[0]
    kw = dict(output_index=None if which == 'last' else o, params_to_read=wanted, nodes_only=whole == 'nodes only')
    try:
        if via == 'path':
            got = k.run(util.read_nodedata_galacticus, path, **kw)
        else:
            with h5py.File(path, 'r') as f:
                got = k.run(util.hdf5_read_galacticus_nodedata, f, **kw)
    finally:
        os.unlink(path)
        os.rmdir(folder)
    cols, counts, index, total = content[o]
    names = ['a', 'b', 'c', 'short'] if wanted is None else ['a'] if wanted == 'a' else wanted
    if whole == 'nodes only':
        names = [q for q in names if q != 'short']
    custom = ['custom_treeIndex', 'custom_treeOutputOrder', 'id']
    k.check('columns', sorted(got) == sorted(names + custom))
    for q in names:
        k.check('values ' + q, np.array_equal(got[q], cols[q]))
    k.check('tree of each node', np.array_equal(got['custom_treeIndex'], np.repeat(index, counts)))
    k.check('order of the tree', np.array_equal(got['custom_treeOutputOrder'], np.repeat(np.arange(trees), counts)))
    k.check('ids', np.array_equal(got['id'], np.arange(total)))


@contract('halos from simulation trees: own filter, columns and parameter names', ['DMFromGalacticus'], seeds=40)
def galacticus_options(k):
    import pyHalo.PresetModels.external as ext
    import pyHalo.preset_models as presets
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    lc, s = lens(k, 0.5, k.real('z_source', Real(1.2, 4.0)))
    lc.cosmo.D_C_transverse = k.fn('D_C_transverse', posgen(k))
    n, data = catalogue(k)
    data['bound'] = data.pop('satelliteBoundMass')
    mask = k.array('own filter', n, Bool())
    joins, read, filtered, tabled = [], [], [], []
    los = k.obj(lens_cosmo=lc, join=lambda other: (joins.append(other), 'JOINED')[1])
    k.override(presets.preset_model_from_name, lambda name: lambda **kw: los)
    util = GalacticusUtil()
    util.PARAM_MASS_BOUND = 'bound'
    util.read_nodedata_galacticus = lambda path, params_to_read=None: (read.append((path, params_to_read)), data)[1]
    keys = ('rhos', 'rs', 'r_trunc_kpc', 'rv', 'z_infall')
    use = {'rhos': 'densityNormalizationTidalTruncationNFW', 'rs': 'darkMatterProfileScaleRadius', 'r_trunc_kpc': 'radiusTidalTruncationNFW',
           'rv': 'darkMatterOnlyRadiusVirial', 'z_infall': 'redshiftLastIsolated'}
    table = lambda d, u: (tabled.append((d, u)), {q: d[use[q]] for q in keys})[1]
    own = k.choice('own', ['filter', 'columns', 'both'])
    kw = {}
    if own != 'columns':
        kw['nodedata_filter'] = lambda d, u: (filtered.append((d, u)), mask)[1]
    else:
        k.override(ext.nodedata_filter_virialized, lambda d, u=None: mask)
        data['nodeIsIsolated'], data['custom_treeIndex'] = k.array('isolated', n, Int(0, 1)), k.array('trees', n, Int(1, 3))
    if own != 'filter':
        kw['galacticus_tabulate_tnfw_params'] = table
        kw['galacticus_params_additional'] = ['extra', 'more']
    data['id'] = k.array('id', n, Int(0, 10 ** 6))
    k.begin()
    out = k.run(ext.DMFromGalacticus, 'a file', lc.z_source, 20.0, 2, 6.0, 9.0, galacticus_utilities=util, **kw)
    k.check('joined', out == 'JOINED' and len(joins) == 1)
    k.check('read once', len(read) == 1 and read[0][0] == 'a file')
    need = sorted([c for c, _ in NODES if c != 'satelliteBoundMass'] + ['bound', 'nodeIsIsolated'] + (['extra', 'more'] if own != 'filter' else []))
    k.check('columns read', sorted(read[0][1]) == need)
    hs = joins[0].halos
    if own == 'columns':
        kpa = s['kpa'](0.5)
        far = lambda v: k.sqrt((1e3 * v[5]) ** 2 + (1e3 * v[6]) ** 2) < 10.0 * kpa
        rows = k.zip(data['massHaloEnclosedCurrent'], mask, data['nodeIsIsolated'], data['custom_treeIndex'], data['bound'],
                     data['positionOrbitalX'], data['positionOrbitalY'], *[data[use[q]] for q in keys])
        kept = k.filter(lambda v: k.And(v[1], k.Eq(v[2], 0), k.Eq(v[3], 2), v[4] > 10 ** 6.0, v[4] < 10 ** 9.0, far(v)), rows)
        kept = k.map(lambda v: (v[0],) + v[7:], kept)
    else:
        k.check('own filter sees all nodes', len(filtered) == 1 and filtered[0][0] is data and filtered[0][1] is util)
        rows = k.zip(data['massHaloEnclosedCurrent'], mask, *[data[use[q]] for q in keys])
        kept = k.map(lambda v: (v[0],) + v[2:], k.filter(lambda v: v[1], rows))
    k.same('exactly these nodes', k.map(lambda h: h.mass, hs), k.map(lambda v: v[0], kept))
    if own != 'filter':
        k.check('own columns', len(tabled) == 1 and tabled[0][1] is util)
        for i, q in enumerate(keys[:4]):
            k.same(q, k.map(lambda h: k.get(h, 'params_physical')[q], hs), k.map(lambda v: v[i + 1], kept))
