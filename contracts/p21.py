"""named models"""
from engine.api import contract
from engine.kit import Real

PROPERTY = dict(
    title='Named models resolve to the published settings; unknown names are refused',
    statement="""Every named concentration, truncation, mass function and preset model gives the model class of that name together
    with the settings published for it (fixed coefficients, or the documented functions of the given transfer function slope),
    which take precedence over the caller's; every other option of the caller is handed on unchanged, and the caller's own
    dictionary is never modified. A class given directly as a truncation or custom model is used as it is. A name that does not
    exist, a custom concentration model without the required method, and a mass function model given coefficients it derives
    itself, are refused.""",
    over=['inputs', 'configurations'],
    forall='every model name, every unknown name, all caller options and all transfer function slopes',
    tests='tests load a few names and check the class only',
    files=['pyHalo/concentration_models.py', 'pyHalo/truncation_models.py', 'pyHalo/mass_function_models.py', 'pyHalo/preset_models.py',
           'pyHalo/Rendering/MassFunctions/stucker.py'],
    mechanism=[('preset_concentration_models', 'pyHalo/concentration_models.py'), ('truncation_models', 'pyHalo/truncation_models.py'),
               ('preset_mass_function_models', 'pyHalo/mass_function_models.py'), ('preset_model_from_name', 'pyHalo/preset_models.py'),
               ('stucker_suppression_params', 'pyHalo/Rendering/MassFunctions/stucker.py')],
)


def options(k, extra=()):
    kw = {'log_mc': k.real('log_mc', Real(4, 10)), 'scatter': k.bool('scatter'), 'other': 'OTHER'}
    if k.choice('caller gives the coefficients too', [False, True]):
        for n in extra:
            kw[n] = k.real('caller ' + n, Real(-10, 100))
    return kw


@contract('concentration models', ['preset_concentration_models'])
def concentrations(k):
    import pyHalo.Halos.concentration as c
    from pyHalo.concentration_models import preset_concentration_models as preset
    bose = dict(c_scale=60.0, c_power=-0.17, c_power_inner=1.0, mc_suppression_redshift_evolution=False, kwargs_cdm={})
    table = {'DIEMERJOYCE19': (c.ConcentrationDiemerJoyce, {}), 'LUDLOW2016': (c.ConcentrationLudlow, {}),
             'PEAK_HEIGHT_POWERLAW': (c.ConcentrationPeakHeight, {}), 'BINNED_HALO_MASS': (c.BinnedHaloMass, {}),
             'WDM_HYPERBOLIC': (c.ConcentrationWDMHyperbolic, {}), 'WDM_POLYNOMIAL': (c.ConcentrationWDMPolynomial, {}),
             'BOSE2016': (c.ConcentrationWDMPolynomial, dict(bose, concentration_cdm_class=c.ConcentrationDiemerJoyce)),
             'BOSE2016_LUDLOW': (c.ConcentrationWDMPolynomial, dict(bose, concentration_cdm_class=c.ConcentrationLudlow)),
             'LAROCHE2022': (c.ConcentrationWDMPolynomial, dict(c_scale=21.42, c_power=-0.42, c_power_inner=1.62, kwargs_cdm={},
                                                                concentration_cdm_class=c.ConcentrationDiemerJoyce)),
             'LUDLOW_WDM': (c.ConcentrationLudlowWDM, {}), 'CONSTANT': (c.ConcentrationConstant, {})}
    name = k.choice('name', sorted(table))
    cls, fixed = table[name]
    kw = options(k, [n for n in fixed if n.startswith('c_')])
    before = dict(kw)
    none = k.choice('no options given', [False, True])
    k.begin()
    got, out = k.run(preset, name) if none else k.run(preset, name, kw)
    k.check('class', got is cls)
    k.same('settings', out, dict({} if none else before, **fixed))
    k.same('caller\'s options untouched', kw, before)
    k.check('a copy', out is not kw)


@contract('concentration from the formation history', ['preset_concentration_models'])
def formation(k):
    import pyHalo.Halos.concentration as c
    from pyHalo.concentration_models import preset_concentration_models as preset
    kw = options(k, ['a', 'b'])
    d = kw['dlogT_dlogk'] = k.real('dlogT_dlogk', Real(0.45, 4, pool=(1.0, 2.5)))
    before = dict(kw)
    k.begin()
    got, out = k.run(preset, 'FROM_FORMATION_HISTORY', kw)
    k.check('class', got is c.ConcentrationWDMHyperbolic)
    del before['dlogT_dlogk']
    k.same('settings', out, dict(before, a=0.75 * (0.7 / d) ** 0.4, b=0.94 * abs(k.log(2.36) / k.log(d + 0.6)) ** 0.7))
    k.same('caller\'s options untouched', kw, dict(before, dlogT_dlogk=d, **({'a': kw['a'], 'b': kw['b']} if 'a' in kw else {})))


@contract('custom concentration model', ['preset_concentration_models'])
def custom(k):
    from pyHalo.concentration_models import preset_concentration_models as preset

    class Mine(object):
        def nfw_concentration(self, m, z):
            return 1.0

    class Wrong(object):
        def concentration(self, m, z):
            return 1.0
    kw = options(k)
    good = k.bool('has the method')
    kw['custom_class'] = Mine if good else Wrong
    k.begin()
    out = k.call(preset, 'CUSTOM', kw)
    if good:
        k.check('the given class', out.ok and out.value[0] is Mine)
        k.same('settings', out.value[1], {n: kw[n] for n in kw if n != 'custom_class'})
        k.check('caller\'s options untouched', kw['custom_class'] is Mine)
    else:
        k.check('refused', out.raised(Exception))


@contract('truncation models', ['truncation_models'])
def truncations(k):
    import pyHalo.Halos.tidal_truncation as t
    from pyHalo.truncation_models import truncation_models
    table = {'TRUNCATION_R50': (t.TruncationRN, {'LOS_truncation_factor': 50}),
             'TRUNCATION_R200': (t.TruncationRN, {'LOS_truncation_factor': 200}), 'TRUNCATION_RN': (t.TruncationRN, {}),
             'TRUNCATION_ROCHE': (t.TruncationRoche, {}),
             'TRUNCATION_ROCHE_GILMAN2020': (t.TruncationRoche, {'RocheNorm': 1.4, 'm_power': 1. / 3, 'RocheNu': 2. / 3}),
             'SPLASHBACK': (t.TruncationSplashBack, {}), 'TRUNCATION_MEAN_DENSITY': (t.TruncateMeanDensity, {}),
             'TRUNCATION_GALACTICUS': (t.TruncationGalacticus, {}), 'TRUNCATION_GALACTICUS_ZINFALL': (t.TruncationGalacticusZinfall, {}),
             'TRUNCATION_GALACTICUS_KEELEY24': (t.TruncationGalacticusKeeley24, {}), 'CONSTANT': (t.ConstantTruncationArcsec, {}),
             'MULTIPLE_RS': (t.Multiple_RS, {}), 'BOUND_MASS_PDF': (t.TruncationBoundMassPDF, {}),
             'TRUNCATION_GALACTICUS_CDM_APPROX': (t.TruncationGalacticusApproxCDM, {})}
    name = k.choice('name', sorted(table))
    k.begin()
    got, out = k.run(truncation_models, name)
    k.check('class', got is table[name][0])
    k.same('settings', out, table[name][1])
    out['added'] = 1
    k.check('not shared between calls', 'added' not in k.run(truncation_models, name)[1])

    class Mine(object):
        pass
    got, out = k.run(truncation_models, Mine)
    k.check('a class given directly', got is Mine and out == {})


@contract('mass function models', ['preset_mass_function_models'])
def mass_functions(k):
    import pyHalo.Rendering.MassFunctions.mass_function_base as b
    import pyHalo.Rendering.MassFunctions.density_peaks as d
    from pyHalo.mass_function_models import preset_mass_function_models as preset

    def abc(*v):
        return dict(zip(('a_wdm', 'b_wdm', 'c_wdm'), v))
    table = {'SHMF_LOVELL2020': (b.WDMPowerLaw, abc(36.15, 2.5, -0.2)), 'LOVELL2020': (d.ShethTormenTurnover, abc(1.95, 0.8, -1.0)),
             'SHMF_LOVELL2014': (b.WDMPowerLaw, abc(1.0, 1.0, -1.3)), 'LOVELL2014': (d.ShethTormenTurnover, abc(1.0, 1.0, -1.3)),
             'SCHIVE2016': (d.ShethTormenTurnover, abc(1.0, 1.1, -2.2)), 'SHMF_SCHIVE2016': (b.WDMPowerLaw, abc(1.0, 1.1, -2.2)),
             'POWER_LAW': (b.CDMPowerLaw, {}), 'POWER_LAW_TURNOVER_SHMF': (b.WDMPowerLaw, {}), 'POWER_LAW_TURNOVER': (d.ShethTormenTurnover, {}),
             'SHMF_MIXED_WDM_TURNOVER': (b.MixedWDMPowerLaw, {}), 'MIXED_WDM_TURNOVER': (d.ShethTormenMixedWDM, {})}
    name = k.choice('name', sorted(table))
    kw = options(k, ['a_wdm', 'b_wdm', 'c_wdm'])
    before = dict(kw)
    k.begin()
    got, out = k.run(preset, name, kw)
    k.check('class', got is table[name][0])
    k.same('settings', out, dict(before, **table[name][1]))
    k.same('caller\'s options untouched', kw, before)
    got, out = k.run(preset, name)
    k.same('settings without options', out, table[name][1])
    out['added'] = 1
    k.check('not shared between calls', 'added' not in k.run(preset, name)[1])


@contract('mass function from the transfer function slope', ['preset_mass_function_models'])
def stucker(k):
    import pyHalo.Rendering.MassFunctions.mass_function_base as b
    import pyHalo.Rendering.MassFunctions.density_peaks as d
    import pyHalo.Rendering.MassFunctions.stucker as s
    from pyHalo.mass_function_models import preset_mass_function_models as preset
    f = [k.fn('stucker_' + n, Real(-5, 50)) for n in 'abc']
    k.override(s.stucker_suppression_params, lambda slope, *a: (f[0](slope), f[1](slope), f[2](slope)))
    name = k.choice('name', ['STUCKER', 'STUCKER_SHMF'])
    kw = options(k)
    given = k.choice('given', [[], ['dlogT_dlogk'], ['dlogT_dlogk', 'a_wdm'], ['dlogT_dlogk', 'b_wdm'], ['dlogT_dlogk', 'c_wdm']])
    for n in given:
        kw[n] = k.real(n, Real(0.5, 4))
    if len(given) == 2:     # refused whatever is given
        kw[given[1]] = k.choice('value', [kw[given[1]], 0.0, None])
    before = dict(kw)
    k.begin()
    out = k.call(preset, name, kw)
    if given == ['dlogT_dlogk']:
        slope = before['dlogT_dlogk']
        want = {n: before[n] for n in before if n != 'dlogT_dlogk'}
        want.update(a_wdm=f[0](slope), b_wdm=f[1](slope), c_wdm=f[2](slope))
        k.check('class', out.ok and out.value[0] is (d.ShethTormenTurnover if name == 'STUCKER' else b.WDMPowerLaw))
        k.same('settings', out.value[1], want)
    else:
        k.check('refused', out.raised(Exception))
    k.same('caller\'s options untouched', kw, before)


@contract('slope to transfer function shape', ['beta_from_slope', '_supp_mscale'])
def shape(k):
    from pyHalo.Rendering.MassFunctions.stucker import beta_from_slope, _supp_mscale
    slope, gamma = k.real('slope', Real(0.5, 4)), k.real('gamma', Real(1, 10))
    a, b, frac = k.pos('a'), k.real('b', Real(0.1, 5)), k.real('frac', Real(0.05, 0.95))
    c = -k.real('minus c', Real(0.1, 5))
    k.begin()
    f = 0.5 ** (-1 / gamma) - 1
    k.eq('beta', k.run(beta_from_slope, slope, gamma), -slope * (1 + f) / (f * gamma))
    m = k.run(_supp_mscale, a, b, c, frac)
    k.eq('the suppression at the returned mass is the fraction', (1 + (a / m) ** b) ** c, frac)


@contract('suppression coefficients reproduce the 20, 50 and 80 percent scales', ['stucker_suppression_params', 'mscales_to_abc'],
          sym=False, seeds=25)
def coefficients(k):
    from pyHalo.Rendering.MassFunctions.stucker import stucker_suppression_params
    slope = -k.real('slope', Real(0.6, 3.0, pool=(1.0, 2.0)))
    k.begin()
    a, b, c = k.run(stucker_suppression_params, slope)
    f = 2 ** 0.2 - 1
    beta = -slope * (1 + f) / (5 * f)
    for mu, nu, frac in ((0.2651, 0.3656, 0.2), (1.638, -0.0994, 0.5), (16.51, -0.9466, 0.8)):
        k.eq('suppression at the %d percent scale' % (100 * frac), (1 + a * (mu * beta ** nu) ** -b) ** c, frac, rtol=2e-3)
    k.check('a turnover', a > 0 and b > 0 and c < 0)


@contract('preset models by name', ['preset_model_from_name'])
def presets(k):
    import pyHalo.PresetModels.cdm as cdm
    import pyHalo.PresetModels.wdm as wdm
    import pyHalo.PresetModels.sidm as sidm
    import pyHalo.PresetModels.uldm as uldm
    import pyHalo.PresetModels.external as ext
    import pyHalo.PresetModels.mbh as mbh
    from pyHalo.preset_models import preset_model_from_name as preset
    table = {'CDM': cdm.CDM, 'WDM': wdm.WDM, 'WDM_mixed': wdm.WDM_mixed, 'WDMGeneral': wdm.WDMGeneral, 'SIDM_core_collapse': sidm.SIDM_core_collapse,
             'SIDM_parametric': sidm.SIDM_parametric, 'SIDM_parametric_fixedbins': sidm.SIDM_parametric_fixedbins, 'ULDM': uldm.ULDM,
             'DMEmulator': ext.DMSubhalosFromEmulator, 'DMGalacticus': ext.DMFromGalacticus, 'JointLOSWithEmulator': ext.JointLOSWithEmulator,
             'CDM_plus_BH': mbh.CDM_plus_BH}
    name = k.choice('name', sorted(table))
    mine = k.obj(kind='custom')
    k.begin()
    k.check('function', k.run(preset, name) is table[name])
    k.check('custom function ignored for a named model', k.run(preset, name, mine) is table[name])
    k.check('custom function', k.run(preset, 'CUSTOM', mine) is mine)


@contract('unknown names are refused', ['preset_concentration_models', 'truncation_models', 'preset_mass_function_models',
                                       'preset_model_from_name'])
def unknown(k):
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.truncation_models import truncation_models
    from pyHalo.mass_function_models import preset_mass_function_models
    from pyHalo.preset_models import preset_model_from_name
    name = k.choice('name', ['', 'cdm', 'TRUNCATION', 'LUDLOW', 'WDM ', 'BOSE2017', 'POWERLAW', 'None', 'STUCKER_LOS', 'ROCHE', 'TRUNCATION_R100'])
    k.begin()
    for f in (preset_concentration_models, truncation_models, preset_mass_function_models, preset_model_from_name):
        k.check(f.__name__ + ' refuses', k.call(f, name).raised(Exception))
    k.check('a missing name is refused', k.call(preset_model_from_name, None).raised(Exception))
