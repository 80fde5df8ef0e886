"""preset models: what they render"""
from engine.api import contract
from engine.kit import Real, Bool
from .common import posgen
from .presetlib import Presets, numbers, GALACTICUS

PROPERTY = dict(
    title='Preset models render exactly the populations and models that were asked for',
    statement="""Every preset (cold, binned, warm, mixed, general warm) renders subhalos, line-of-sight halos and, unless switched off, the
    two-halo term once each, in the requested cosmology, redshifts, geometry, mass range and profile; amplitudes follow the documented
    precedence (number density, then logarithmic, then plain amplitude), the mass function, concentration, truncation, infall and spatial
    models are the named ones with the caller's options plus the cosmology, host mass and host concentration; massive halos are converted and
    clusters added only on request. Presets leave the caller's options alone and do not depend on earlier calls; unknown options are refused.""",
    over=['inputs', 'configurations', 'histories of calls'],
    forall='every value of the numeric options, every documented choice of model, and any earlier call with other options',
    tests='the preset tests cannot run without the lensing library, and look at a few default realizations only',
    files=['pyHalo/PresetModels/cdm.py', 'pyHalo/PresetModels/wdm.py', 'pyHalo/pyhalo.py'],
    mechanism=[('CDM', 'pyHalo/PresetModels/cdm.py'), ('CDMBinned', 'pyHalo/PresetModels/cdm.py'), ('WDM', 'pyHalo/PresetModels/wdm.py'),
               ('WDMGeneral', 'pyHalo/PresetModels/wdm.py'), ('pyHalo.render', 'pyHalo/pyhalo.py')],
)


def amplitude(k, case, sigma):
    """(arguments, expected option): number density before logarithmic before plain amplitude"""
    lg, ld = k.real('log10_sigma_sub', Real(-3, 0)), k.real('log10_dNdA', Real(-3, 0))
    if case == 'plain':
        return dict(sigma_sub=sigma), {'sigma_sub': sigma}
    if case == 'log':
        return dict(sigma_sub=sigma, log10_sigma_sub=lg), {'sigma_sub': 10 ** lg}
    if case == 'density':
        return dict(sigma_sub=sigma, log10_dNdA=ld), {'dndA': 10 ** ld}
    return dict(sigma_sub=sigma, log10_sigma_sub=lg, log10_dNdA=ld), {'dndA': 10 ** ld}


def post(k, w, out, sis=None, gc=None, first='SIS'):
    """conversion of massive halos and clusters, only when asked for"""
    want = [(n, o) for n, o in (('SIS', sis), ('GC', gc)) if o is not None]
    if first == 'GC':
        want = want[::-1]
    k.check('extensions applied', [s[0] for s in w.steps] == [q[0] for q in want])
    r = w.rendered
    for s, (what, options) in zip(w.steps, want):
        k.check('each to the result of the one before', s[1] is r)
        k.check('extension options', sorted(s[2]) == sorted(options))
        for key in options:
            k.same('extension option ' + key, s[2][key], options[key])
        r = [o for o in (out, getattr(out, 'parent', None)) if getattr(o, 'what', None) == what and getattr(o, 'parent', None) is s[1]]
        k.check('result passed on', len(r) == 1)
        r = r[0]
    k.check('the final realization is returned', out is r)


GC = {'log10_mgc_mean': 5.0, 'log10_mgc_sigma': 0.5, 'rendering_radius_arcsec': 0.1}


CDM_CASES = {
    # amplitude, spatial distribution, two-halo term, truncation of subhalos, infall model, host concentration given, profile, massive, clusters
    'defaults': ('plain', 'UNIFORM', True, 'TRUNCATION_GALACTICUS', 'HYBRID_INFALL', True, 'TNFW', None, False),
    'host profile': ('log', 'PROJECTED_NFW', False, 'TRUNCATION_ROCHE', 'DIRECT_INFALL', False, 'NFW', 'SIS', True),
    'number density': ('density', 'PROJECTED_NFW', True, 'TRUNCATION_GALACTICUS_ZINFALL', 'GALACTICUS_2024', True, 'PT_MASS', None, True),
    'all': ('all', 'UNIFORM', False, 'TRUNCATION_GALACTICUS_KEELEY24', 'DIRECT_INFALL_CLUSTER', False, 'TNFW', 'GNFW', False),
}


def cdm_call(k, w, v, case, infall_options, tag=''):
    """one call of the preset: keyword arguments and the obligations on what it rendered"""
    amp, space, two, trunc, infall, given, prof, massive, gc = CDM_CASES[case]
    kw, expect = amplitude(k, amp, v['sigma'])
    th = k.real('mass_threshold', Real(1e9, 1e11))
    kw.update(log_mlow=v['lo'], log_mhigh=v['hi'], subhalo_spatial_distribution=space, two_halo_contribution=two, truncation_model_subhalos=trunc,
              infall_redshift_model=infall, c_host=v['ch'] if given else None, halo_mass_profile=prof, shmf_log_slope=v['slope'],
              cone_opening_angle_arcsec=v['angle'], log_m_host=v['mh'], r_tidal=v['rt'], LOS_normalization=v['los'], host_scaling_factor=v['hs'],
              redshift_scaling_factor=v['rs'], draw_poisson=v['poisson'], two_halo_Lazar_correction=v['lazar'], lens_plane_spacing=v['dz'],
              geometry_type='CYLINDER', kwargs_cosmo=v['cosmo'], kwargs_infall_model=infall_options, delta_power_law_index=v['tilt'],
              kwargs_truncation_model_fieldhalos={'LOS_truncation_factor': 60.0}, truncation_model_fieldhalos='TRUNCATION_R200')
    if massive:
        kw.update(mass_threshold_sis=th, galaxy_model=massive)
    if gc:
        kw.update(add_globular_clusters=True, kwargs_globular_clusters=dict(GC))
    sis = dict(mass_threshold=th, galaxy_model=massive) if massive else None
    return kw, expect, sis, GC if gc else None, (space, two, trunc, infall, given, prof)


def common_numbers(k):
    v = numbers(k)
    v.update(ch=k.real('c_host', Real(3, 10, pool=(6.0,))), poisson=k.bool('draw_poisson'), lazar=k.bool('Lazar correction'),
             dz=k.real('lens_plane_spacing', Real(0.01, 0.1)), tilt=k.real('delta_power_law_index', Real(-0.2, 0.2, pool=(0.0,))),
             cosmo={'H0': 70.0})
    return v


def infall_wanted(k, w, infall, mh, options):
    k.check('infall model set once', len(w.infall) == 1 and w.infall[0][0] == infall)
    kw = w.infall[0][1]
    if infall in ('HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER'):
        k.same('infall: host mass', kw.get('log_m_host'), mh)
    if infall == 'DIRECT_INFALL':
        if 'm_host' in options or 'log_m_host' in options:
            k.check('infall: requested host mass', kw == options)
        else:
            k.same('infall: host mass', kw.get('log_m_host'), mh)
    k.check('infall: nothing else', set(kw) - {'log_m_host'} == set(options) - {'log_m_host'})
    if infall not in ('HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER', 'DIRECT_INFALL'):
        k.check('infall: options as given', kw == options)


def los_options(v, **more):
    return dict({'log_mlow': v['lo'], 'log_mhigh': v['hi'], 'LOS_normalization': v['los'], 'm_pivot': 10 ** 8,
                 'log_m_host': v['mh']}, **more)


def sub_options(v, expect, **more):
    return dict({'log_mlow': v['lo'], 'log_mhigh': v['hi'], 'm_pivot': 10 ** 8, 'power_law_index': v['slope'],
                 'delta_power_law_index': 0.0, 'host_scaling_factor': v['hs'], 'redshift_scaling_factor': v['rs']}, **dict(expect, **more))


def cdm_contract(case):
    def body(k):
        from pyHalo.PresetModels.cdm import CDM
        from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
        from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
        w = Presets(k)
        v = common_numbers(k)
        scatter = k.choice('scatter', ['default', 'given'])
        sd = k.real('scatter_dex', Real(0, 0.4))
        copts = {'scatter_dex': sd} if scatter == 'given' else {}
        before = dict(copts)
        iopts = {}
        kw, expect, sis, gc, (space, two, trunc, infall, given, prof) = cdm_call(k, w, v, case, iopts)
        k.begin()
        out = k.run(CDM, v['zl'], v['zs'], concentration_model_subhalos='DIEMERJOYCE19', kwargs_concentration_model_subhalos=copts,
                    concentration_model_fieldhalos='LUDLOW2016', **kw)
        w.setting(v['zl'], v['zs'], v['angle'], 'CYLINDER', v['cosmo'])
        infall_wanted(k, w, infall, v['mh'], {})
        ch = v['ch'] if given else w.median['LUDLOW2016'](10 ** v['mh'], v['zl'])
        sp, sopt = w.spatial(space, v['angle'], v['rt'], v['mh'], ch, v['zl'])
        fp, fopt = w.field(v['angle'])
        los = los_options(v, delta_power_law_index=v['tilt'], draw_poisson=v['poisson'])
        want = [('SUBHALOS', CDMPowerLaw, sub_options(v, expect, log_m_host=v['mh'], draw_poisson=v['poisson'], delta_power_law_index=v['tilt']), sp, sopt),
                ('LINE_OF_SIGHT', ShethTormen, los, fp, fopt)]
        if two:
            want.append(('TWO_HALO', ShethTormen, los, fp, fopt))
        w.population(want)
        hm = w.halo_model
        tk = {'lens_cosmo': w.lens_cosmo}
        hm('truncation_model_subhalos', 'truncation', trunc, dict(tk, c_host=ch) if trunc in GALACTICUS else tk)
        hm('truncation_model_field_halos', 'truncation', 'TRUNCATION_R200', dict(tk, LOS_truncation_factor=60.0))
        hm('concentration_model_subhalos', 'concentration', 'DIEMERJOYCE19', {'cosmo': 'ASTROPY', 'scatter_dex': sd if scatter == 'given' else 0.2})
        hm('concentration_model_field_halos', 'concentration', 'LUDLOW2016', {'cosmo': 'ASTROPY', 'scatter_dex': 0.2})
        r = w.renders[0]
        k.check('profile', r['mdef_subhalos'] == prof and r['mdef_field_halos'] == prof and r['kwargs_halo_model']['kwargs_density_profile'] == {})
        k.check('Lazar correction', r['two_halo_Lazar_correction'] is v['lazar'])
        k.check('two-halo term not rescaled', r.get('scale_2halo_boost_factor', 1.0) == 1.0)
        k.check('plane spacing', r['lens_plane_spacing'] is v['dz'])
        w.untouched('options of the caller untouched', (copts, iopts), (before, {}))
        post(k, w, out, sis, gc)
    return body


for _case in CDM_CASES:
    contract('cold dark matter: ' + _case, ['CDM'], seeds=40)(cdm_contract(_case))


WDM_CASES = {
    # amplitude, spatial, two-halo term, truncation, infall model, host concentration given, mass functions, concentrations, massive, clusters
    'defaults': ('plain', 'PROJECTED_NFW', True, 'TRUNCATION_GALACTICUS', 'HYBRID_INFALL', False, ('SHMF_LOVELL2020', 'LOVELL2020'),
                 ('BOSE2016', 'BOSE2016'), False, False),
    'other relations': ('log', 'UNIFORM', False, 'TRUNCATION_ROCHE', 'DIRECT_INFALL', True, ('SHMF_LOVELL2014', 'LOVELL2014'),
                        ('BOSE2016_LUDLOW', 'WDM_POLYNOMIAL'), True, False),
    'number density': ('density', 'PROJECTED_NFW', True, 'TRUNCATION_GALACTICUS_KEELEY24', 'INFALL_ZLENS', True, ('POWER_LAW_TURNOVER_SHMF', 'POWER_LAW_TURNOVER'),
                       ('WDM_POLYNOMIAL', 'BOSE2016_LUDLOW'), False, True),
    'all': ('all', 'UNIFORM', True, 'TRUNCATION_GALACTICUS_ZINFALL', 'DIRECT_INFALL_CLUSTER', False, ('SHMF_SCHIVE2016', 'SCHIVE2016'),
            ('LAROCHE2022', 'LAROCHE2022'), True, True),
}


def wdm_contract(case):
    def body(k):
        from pyHalo.PresetModels.wdm import WDM
        from pyHalo.mass_function_models import preset_mass_function_models as mfm
        w = Presets(k)
        v = common_numbers(k)
        amp, space, two, trunc, infall, given, mf, mc, massive, gc = WDM_CASES[case]
        mhm = k.real('log_mc', Real(5, 9))
        th = k.real('mass_threshold', Real(1e9, 1e11))
        mopts = {'a_wdm': 1.5, 'b_wdm': 0.5, 'c_wdm': -2.0} if mf[0].startswith('POWER_LAW') else {}
        iopts = {'log_m_host': 12.0} if case == 'other relations' else {}
        opts = [dict(mopts), dict(mopts), {'q': 1}, {'q': 2}, {'t': 1.0}, {'t': 2.0}, dict(iopts), {'d': 1}]
        before = [dict(o) for o in opts]
        kw, expect = amplitude(k, amp, v['sigma'])
        if massive:
            kw.update(mass_threshold_sis=th)
        if gc:
            kw.update(add_globular_clusters=True, kwargs_globular_clusters=dict(GC))
        if given:
            kw.update(c_host=v['ch'])
        k.begin()
        out = k.run(WDM, v['zl'], v['zs'], mhm, log_mlow=v['lo'], log_mhigh=v['hi'], mass_function_model_subhalos=mf[0],
                    kwargs_mass_function_subhalos=opts[0], mass_function_model_fieldhalos=mf[1], kwargs_mass_function_fieldhalos=opts[1],
                    concentration_model_subhalos=mc[0], kwargs_concentration_model_subhalos=opts[2], concentration_model_fieldhalos=mc[1],
                    kwargs_concentration_model_fieldhalos=opts[3], truncation_model_subhalos=trunc, kwargs_truncation_model_subhalos=opts[4],
                    truncation_model_fieldhalos='TRUNCATION_R200', kwargs_truncation_model_fieldhalos=opts[5], infall_redshift_model=infall,
                    kwargs_infall_model=opts[6], subhalo_spatial_distribution=space, two_halo_contribution=two, shmf_log_slope=v['slope'],
                    cone_opening_angle_arcsec=v['angle'], log_m_host=v['mh'], r_tidal=v['rt'], LOS_normalization=v['los'], geometry_type='CONE',
                    kwargs_cosmo=v['cosmo'], mdef_subhalos='ULDM', mdef_field_halos='TNFW', kwargs_density_profile=opts[7],
                    host_scaling_factor=v['hs'], redshift_scaling_factor=v['rs'], two_halo_Lazar_correction=v['lazar'], draw_poisson=v['poisson'],
                    lens_plane_spacing=v['dz'], **kw)
        w.setting(v['zl'], v['zs'], v['angle'], 'CONE', v['cosmo'])
        infall_wanted(k, w, infall, v['mh'], iopts)
        ch = v['ch'] if given else w.median[mc[1]](10 ** v['mh'], v['zl'])
        sp, sopt = w.spatial(space, v['angle'], v['rt'], v['mh'], ch, v['zl'])
        fp, fopt = w.field(v['angle'])
        sc, sk = mfm(mf[0], mopts)
        fc, fk = mfm(mf[1], mopts)
        los = los_options(v, delta_power_law_index=0.0, draw_poisson=v['poisson'], log_mc=mhm, **fk)
        want = [('SUBHALOS', sc, sub_options(v, expect, log_m_host=v['mh'], draw_poisson=v['poisson'], log_mc=mhm, **sk), sp, sopt),
                ('LINE_OF_SIGHT', fc, los, fp, fopt)]
        if two:
            want.append(('TWO_HALO', fc, los, fp, fopt))
        w.population(want)
        tk = {'lens_cosmo': w.lens_cosmo}
        hm = w.halo_model
        hm('truncation_model_subhalos', 'truncation', trunc, dict(tk, t=1.0, c_host=ch) if trunc in GALACTICUS else dict(tk, t=1.0))
        hm('truncation_model_field_halos', 'truncation', 'TRUNCATION_R200', dict(tk, t=2.0, LOS_truncation_factor=200))
        for key, name, q in (('concentration_model_subhalos', mc[0], 1), ('concentration_model_field_halos', mc[1], 2)):
            must = {'cosmo': 'ASTROPY', 'log_mc': mhm, 'q': q, 'concentration_cdm_class': w._class('concentration', 'DIEMERJOYCE19')}
            if name != 'WDM_POLYNOMIAL':
                must.update(concentration_cdm_class='CDM CLASS OF ' + name, c_scale=60.0)
            hm(key, 'concentration', name, must)
        r = w.renders[0]
        k.check('profiles', r['mdef_subhalos'] == 'ULDM' and r['mdef_field_halos'] == 'TNFW' and r['kwargs_halo_model']['kwargs_density_profile'] == {'d': 1})
        k.check('Lazar correction', r['two_halo_Lazar_correction'] is v['lazar'])
        k.check('two-halo term not rescaled', r.get('scale_2halo_boost_factor', 1.0) == 1.0)
        k.check('plane spacing', r['lens_plane_spacing'] is v['dz'])
        w.untouched('options of the caller untouched', opts, before)
        post(k, w, out, dict(mass_threshold=th, galaxy_model='GNFW') if massive else None, GC if gc else None, first='GC')
    return body


for _case in WDM_CASES:
    contract('warm dark matter: ' + _case, ['WDM'], seeds=40)(wdm_contract(_case))


def general_contract(amp, space, trunc, infall, given, massive, gc):
    def body(k):
        import pyHalo.Rendering.MassFunctions.stucker as st
        from pyHalo.PresetModels.wdm import WDMGeneral
        from pyHalo.Rendering.MassFunctions.mass_function_base import WDMPowerLaw
        from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormenTurnover
        w = Presets(k)
        v = common_numbers(k)
        cut = [k.fn('cutoff ' + n, g) for n, g in (('a', posgen(k, 0.1, 10)), ('b', posgen(k, 0.1, 3)), ('c', Real(-3, -0.1)))]
        k.override(st.stucker_suppression_params, lambda slope, *a: tuple(f(slope) for f in cut))
        mhm, dl, th = k.real('log_mc', Real(5, 9)), k.real('dlogT_dlogk', Real(-3, -0.6)), k.real('mass_threshold', Real(1e9, 1e11))
        opts = [{'t': 1.0}, {'t': 2.0}, {}, {'d': 1}]
        before = [dict(o) for o in opts]
        kw, expect = amplitude(k, amp, v['sigma'])
        kw.update(mass_threshold_sis=th if massive else None)
        if gc:
            kw.update(add_globular_clusters=True, kwargs_globular_clusters=dict(GC))
        if given:
            kw.update(c_host=v['ch'])
        k.begin()
        out = k.run(WDMGeneral, v['zl'], v['zs'], mhm, dl, log_mlow=v['lo'], log_mhigh=v['hi'], truncation_model_subhalos=trunc,
                    kwargs_truncation_model_subhalos=opts[0], truncation_model_fieldhalos='TRUNCATION_R200', kwargs_truncation_model_fieldhalos=opts[1],
                    infall_redshift_model=infall, kwargs_infall_model=opts[2], subhalo_spatial_distribution=space, shmf_log_slope=v['slope'],
                    cone_opening_angle_arcsec=v['angle'], log_m_host=v['mh'], r_tidal=v['rt'], LOS_normalization=v['los'],
                    geometry_type='CONE', kwargs_cosmo=v['cosmo'], mdef_subhalos='TNFW', mdef_field_halos='NFW', kwargs_density_profile=opts[3],
                    host_scaling_factor=v['hs'], redshift_scaling_factor=v['rs'], two_halo_Lazar_correction=v['lazar'], **kw)
        w.setting(v['zl'], v['zs'], v['angle'], 'CONE', v['cosmo'])
        infall_wanted(k, w, infall, v['mh'], {})
        ch = v['ch'] if given else w.median['DIEMERJOYCE19'](10 ** v['mh'], v['zl'])
        sp, sopt = w.spatial(space, v['angle'], v['rt'], v['mh'], ch, v['zl'])
        fp, fopt = w.field(v['angle'])
        a, b, c = [f(dl) for f in cut]
        los = los_options(v, delta_power_law_index=0.0, log_mc=mhm, a_wdm=a, b_wdm=b, c_wdm=c)
        more = {} if 'dndA' in expect else {'log_m_host': v['mh']}
        w.population([('SUBHALOS', WDMPowerLaw, sub_options(v, expect, log_mc=mhm, a_wdm=a, b_wdm=b, c_wdm=c, **more), sp, sopt),
                      ('LINE_OF_SIGHT', ShethTormenTurnover, los, fp, fopt), ('TWO_HALO', ShethTormenTurnover, los, fp, fopt)])
        tk = {'lens_cosmo': w.lens_cosmo}
        w.halo_model('truncation_model_subhalos', 'truncation', trunc, dict(tk, t=1.0, c_host=ch) if trunc in GALACTICUS else dict(tk, t=1.0))
        w.halo_model('truncation_model_field_halos', 'truncation', 'TRUNCATION_R200', dict(tk, t=2.0, LOS_truncation_factor=200))
        for key in ('concentration_model_subhalos', 'concentration_model_field_halos'):
            w.halo_model(key, 'concentration', 'LUDLOW_WDM', {'cosmo': 'ASTROPY', 'log_mc': mhm, 'dlogT_dlogk': dl})
        r = w.renders[0]
        k.check('profiles', r['mdef_subhalos'] == 'TNFW' and r['mdef_field_halos'] == 'NFW' and r['kwargs_halo_model']['kwargs_density_profile'] == {'d': 1})
        k.check('Lazar correction', r['two_halo_Lazar_correction'] is v['lazar'])
        w.untouched('options of the caller untouched', opts, before)
        post(k, w, out, dict(mass_threshold=th, galaxy_model='GNFW') if massive else None, GC if gc else None, first='GC')
    return body


for _name, _args in (('plain', ('plain', 'PROJECTED_NFW', 'TRUNCATION_GALACTICUS', 'HYBRID_INFALL', False, False, True)),
                     ('log', ('log', 'UNIFORM', 'TRUNCATION_ROCHE', 'DIRECT_INFALL', True, True, False)),
                     ('density', ('all', 'PROJECTED_NFW', 'TRUNCATION_GALACTICUS_KEELEY24', 'DIRECT_INFALL_CLUSTER', True, True, True))):
    contract('general warm dark matter: ' + _name, ['WDMGeneral'], seeds=40)(general_contract(*_args))


@contract('mixed dark matter', ['WDM_mixed', 'WDM'], seeds=60)
def mixed(k):
    from pyHalo.PresetModels.wdm import WDM_mixed
    from pyHalo.Rendering.MassFunctions.mass_function_base import MixedWDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormenMixedWDM
    w = Presets(k)
    v = common_numbers(k)
    mhm, frac = k.real('log_mc', Real(5, 9)), k.real('mixed_DM_frac', Real(0, 1))
    own = k.choice('cutoff', ['published', 'own', 'one of its own'])
    a, b, c = [k.real(n, g) for n, g in (('a_wdm', Real(0.1, 2)), ('b_wdm', Real(0.1, 2)), ('c_wdm', Real(-4, -0.1)))]
    mine = {'own': dict(a_wdm=a, b_wdm=b, c_wdm=c), 'one of its own': dict(b_wdm=b)}.get(own, {})
    opts = [dict(mine), {}, {}, {}, {'t': 1.0}, {'t': 2.0}, {'d': 1}]
    before = [dict(o) for o in opts]
    kw = {} if own == 'published' else dict(kwargs_mass_function_subhalos=opts[0], kwargs_mass_function_fieldhalos=opts[1])
    k.begin()
    if own == 'published':
        # an earlier model with other fractions leaves no trace
        k.run(WDM_mixed, v['zl'], v['zs'], mhm - 1, frac / 2)
        for q in (w.entries, w.renders, w.geometries, w.infall):
            q.clear()
    out = k.run(WDM_mixed, v['zl'], v['zs'], mhm, frac, sigma_sub=v['sigma'], log_mlow=v['lo'], log_mhigh=v['hi'], concentration_model_subhalos='WDM_POLYNOMIAL',
                concentration_model_fieldhalos='BOSE2016', kwargs_concentration_model_subhalos=opts[2], kwargs_concentration_model_fieldhalos=opts[3],
                truncation_model_subhalos='TRUNCATION_ROCHE', kwargs_truncation_model_subhalos=opts[4], truncation_model_fieldhalos='TRUNCATION_R200',
                kwargs_truncation_model_fieldhalos=opts[5], shmf_log_slope=v['slope'], cone_opening_angle_arcsec=v['angle'], log_m_host=v['mh'],
                r_tidal=v['rt'], LOS_normalization=v['los'], geometry_type='CYLINDER', kwargs_cosmo=v['cosmo'], kwargs_density_profile=opts[6], **kw)
    w.setting(v['zl'], v['zs'], v['angle'], 'CYLINDER', v['cosmo'])
    infall_wanted(k, w, 'HYBRID_INFALL', v['mh'], {})
    sp, sopt = w.spatial('PROJECTED_NFW', v['angle'], v['rt'], v['mh'], w.median['BOSE2016'](10 ** v['mh'], v['zl']), v['zl'])
    fp, fopt = w.field(v['angle'])
    keeley = dict(a_wdm=0.5, b_wdm=0.8, c_wdm=-3.0)
    los = los_options(v, delta_power_law_index=0.0, log_mc=mhm, mixed_DM_frac=frac, **keeley)
    v.update(hs=0.55, rs=0.37)
    w.population([('SUBHALOS', MixedWDMPowerLaw, sub_options(v, {'sigma_sub': v['sigma']}, log_mc=mhm, log_m_host=v['mh'], mixed_DM_frac=frac,
                                                             **dict(keeley, **mine)), sp, sopt),
                  ('LINE_OF_SIGHT', ShethTormenMixedWDM, los, fp, fopt), ('TWO_HALO', ShethTormenMixedWDM, los, fp, fopt)])
    tk = {'lens_cosmo': w.lens_cosmo}
    w.halo_model('truncation_model_subhalos', 'truncation', 'TRUNCATION_ROCHE', dict(tk, t=1.0))
    w.halo_model('truncation_model_field_halos', 'truncation', 'TRUNCATION_R200', dict(tk, t=2.0, LOS_truncation_factor=200))
    w.halo_model('concentration_model_subhalos', 'concentration', 'WDM_POLYNOMIAL',
                 {'cosmo': 'ASTROPY', 'log_mc': mhm, 'concentration_cdm_class': w._class('concentration', 'DIEMERJOYCE19')})
    w.halo_model('concentration_model_field_halos', 'concentration', 'BOSE2016',
                 {'cosmo': 'ASTROPY', 'log_mc': mhm, 'concentration_cdm_class': 'CDM CLASS OF BOSE2016', 'c_scale': 60.0})
    k.check('profile options', w.renders[0]['kwargs_halo_model']['kwargs_density_profile'] == {'d': 1})
    w.untouched('options of the caller untouched', opts, before)
    post(k, w, out)


@contract('binned halo masses', ['CDMBinned'], seeds=60)
def binned(k):
    from pyHalo.PresetModels.cdm import CDMBinned
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    w = Presets(k)
    v = common_numbers(k)
    amp = k.choice('amplitude', ['plain', 'log'])
    trunc, infall, gc = k.choice('models', [('TRUNCATION_GALACTICUS', 'HYBRID_INFALL', True), ('TRUNCATION_ROCHE', 'DIRECT_INFALL', False),
                                            ('TRUNCATION_GALACTICUS_ZINFALL', 'INFALL_0', False)])
    R = k.real
    clo, chi, flo, fhi = R('log10_mc_low', Real(0.5, 2)), R('log10_mc_high', Real(0.5, 2)), R('scale_low', Real(0, 3)), R('scale_high', Real(0, 3))
    beta, zeta, sc = R('beta', Real(0.1, 1)), R('zeta', Real(-1, 0)), R('scatter', Real(0, 0.4))
    kw, expect = amplitude(k, amp, v['sigma'])
    opts = [{'t': 1.0}, {'t': 2.0}, {}]
    before = [dict(o) for o in opts]
    if gc:
        kw.update(add_globular_clusters=True, kwargs_globular_clusters=dict(GC))
    k.begin()
    out = k.run(CDMBinned, v['zl'], v['zs'], log10_mc_low=clo, log10_mc_high=chi, scale_mass_function_low=flo, scale_mass_function_high=fhi, beta=beta,
                zeta=zeta, concentration_scatter_dex=sc, truncation_model_subhalos=trunc, kwargs_truncation_model_subhalos=opts[0],
                truncation_model_fieldhalos='TRUNCATION_R200', kwargs_truncation_model_fieldhalos=opts[1], infall_redshift_model=infall,
                kwargs_infall_model=opts[2], shmf_log_slope=v['slope'], cone_opening_angle_arcsec=v['angle'], log_m_host=v['mh'],
                LOS_normalization=v['los'], geometry_type='CONE', kwargs_cosmo=v['cosmo'], host_scaling_factor=v['hs'], redshift_scaling_factor=v['rs'],
                c_host=v['ch'], halo_mass_profile='NFW', lens_plane_spacing=v['dz'], **kw)
    w.setting(v['zl'], v['zs'], v['angle'], 'CONE', v['cosmo'])
    infall_wanted(k, w, infall, v['mh'], {})
    sp, sopt = w.spatial('UNIFORM', v['angle'], v['rt'], v['mh'], None, v['zl'])
    fp, fopt = w.field(v['angle'])
    want = {'SUBHALOS': [], 'LINE_OF_SIGHT': [], 'TWO_HALO': []}
    s0 = expect['sigma_sub']
    for lo, hi, f in ((6, 8, flo), (8, 10.7, fhi)):
        sub = sub_options(dict(v, lo=lo, hi=hi), {'sigma_sub': f * s0}, log_m_host=v['mh'], draw_poisson=True)
        los = los_options(dict(v, lo=lo, hi=hi, los=f * v['los']), delta_power_law_index=0.0, draw_poisson=True)
        want['SUBHALOS'].append(('SUBHALOS', CDMPowerLaw, sub, sp, sopt))
        want['LINE_OF_SIGHT'].append(('LINE_OF_SIGHT', ShethTormen, los, fp, fopt))
        want['TWO_HALO'].append(('TWO_HALO', ShethTormen, los, fp, fopt))
    w.population(want['SUBHALOS'] + want['LINE_OF_SIGHT'] + want['TWO_HALO'])
    tk = {'lens_cosmo': w.lens_cosmo}
    w.halo_model('truncation_model_subhalos', 'truncation', trunc, dict(tk, t=1.0, c_host=v['ch']) if trunc in GALACTICUS else dict(tk, t=1.0))
    w.halo_model('truncation_model_field_halos', 'truncation', 'TRUNCATION_R200', dict(tk, t=2.0, LOS_truncation_factor=200))
    for key in ('concentration_model_subhalos', 'concentration_model_field_halos'):
        m = w.renders[0]['kwargs_halo_model'][key]
        k.check(key, m.kind == ('concentration', 'BINNED_HALO_MASS') and m.kwargs['cosmo'] == 'ASTROPY' and m.kwargs['redshift_evolution'] == 'RHO_CRIT')
        k.same(key + ': normalizations', list(m.kwargs['normalization_list']), [10 ** clo, 10 ** chi])
        k.same(key + ': slopes', list(m.kwargs['beta_list']) + list(m.kwargs['zeta_list']), [beta, beta, zeta, zeta])
        k.same(key + ': bins', [list(q) for q in m.kwargs['log10_mass_bins']], [[6, 8], [8, 10.7]])
        k.same(key + ': scatter', m.kwargs['scatter_dex'], sc)
    r = w.renders[0]
    k.check('profile', r['mdef_subhalos'] == 'NFW' and r['mdef_field_halos'] == 'NFW' and r['lens_plane_spacing'] is v['dz'])
    k.check('correlated structure as measured', r['two_halo_Lazar_correction'] is True and r.get('scale_2halo_boost_factor', 1.0) == 1.0)
    w.untouched('options of the caller untouched', opts, before)
    post(k, w, out, None, GC if gc else None)


@contract('correlated structure only', ['CDMCorrelatedStructure'], seeds=60)
def correlated(k):
    from pyHalo.PresetModels.cdm import CDMCorrelatedStructure
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    w = Presets(k)
    v = common_numbers(k)
    th, boost = k.real('mass_threshold', Real(1e9, 1e11)), k.real('boost', Real(0, 3, pool=(1.0,)))
    massive = k.choice('massive halos', [True, False])
    opts = [{'c': 1.0}, {'t': 2.0}]
    before = [dict(o) for o in opts]
    k.begin()
    out = k.run(CDMCorrelatedStructure, v['zl'], v['zs'], log_mlow=v['lo'], log_mhigh=v['hi'], concentration_model='DIEMERJOYCE19',
                kwargs_concentration_model=opts[0], truncation_model='TRUNCATION_R200', kwargs_truncation_model=opts[1],
                cone_opening_angle_arcsec=v['angle'], log_m_host=v['mh'], LOS_normalization=v['los'], delta_power_law_index=v['tilt'],
                geometry_type='CYLINDER', kwargs_cosmo=v['cosmo'], scale_2halo_boost_factor=boost, mass_threshold_sis=th if massive else None)
    w.setting(v['zl'], v['zs'], v['angle'], 'CYLINDER', v['cosmo'])
    fp, fopt = w.field(v['angle'])
    w.population([('TWO_HALO', ShethTormen, los_options(v, delta_power_law_index=v['tilt']), fp, fopt)])
    for q in ('subhalos', 'field_halos'):
        w.halo_model('truncation_model_' + q, 'truncation', 'TRUNCATION_R200', {'lens_cosmo': w.lens_cosmo, 't': 2.0, 'LOS_truncation_factor': 200})
        w.halo_model('concentration_model_' + q, 'concentration', 'DIEMERJOYCE19', {'cosmo': 'ASTROPY', 'c': 1.0})
    r = w.renders[0]
    k.check('boost', r['scale_2halo_boost_factor'] is boost and r['two_halo_Lazar_correction'] is True)
    k.check('profile', r['mdef_subhalos'] == 'TNFW' and r['mdef_field_halos'] == 'TNFW')
    w.untouched('options of the caller untouched', opts, before)
    post(k, w, out, dict(mass_threshold=th, galaxy_model='GNFW') if massive else None)


@contract('earlier calls leave no trace', ['CDM', 'WDM', 'WDMGeneral', 'CDMBinned'], seeds=40)
def history(k):
    import pyHalo.Rendering.MassFunctions.stucker as st
    from pyHalo.PresetModels.cdm import CDM, CDMBinned
    from pyHalo.PresetModels.wdm import WDM, WDMGeneral
    w = Presets(k)
    k.override(st.stucker_suppression_params, lambda slope, *a: (1.0, 1.0, -1.0))
    f, more = k.choice('preset', [(CDM, {}), (CDMBinned, {}), (WDM, {'log_mc': 7.0}), (WDMGeneral, {'log_mc': 7.0, 'dlogT_dlogk': -2.0})])
    first = k.choice('before', ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER'])
    then = k.choice('after', ['DIRECT_INFALL', 'own model'])
    m1, m2 = k.real('log_m_host before', Real(13, 14)), k.real('log_m_host', Real(13, 14))
    own = k.obj(kind='infall model of the caller')
    model = own if then == 'own model' else then
    k.begin()
    k.run(f, 0.5, 1.5, infall_redshift_model=first, log_m_host=m1, **more)
    k.run(f, 0.5, 1.5, infall_redshift_model=model, log_m_host=m2, **more)
    k.check('infall model', len(w.infall) == 2 and w.infall[1][0] is model)
    got = w.infall[1][1]
    if then == 'own model':
        k.check('no options the caller did not give', got == {})
    else:
        k.same('host mass of this call', got.get('log_m_host'), m2)
    k.same('host mass of the first call', w.infall[0][1].get('log_m_host'), m1)


@contract('default settings', ['CDM', 'WDM', 'WDMGeneral', 'CDMBinned', 'WDM_mixed', 'CDMCorrelatedStructure'], seeds=20)
def defaults(k):
    import pyHalo.Rendering.MassFunctions.stucker as st
    import pyHalo.PresetModels.cdm as cdm
    import pyHalo.PresetModels.wdm as wdm
    from pyHalo.Rendering.SpatialDistributions.uniform import Uniform
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    w = Presets(k)
    k.override(st.stucker_suppression_params, lambda slope, *a: (1.0, 1.0, -1.0))
    name = k.choice('preset', ['CDM', 'CDMBinned', 'WDM', 'WDM_mixed', 'WDMGeneral', 'CDMCorrelatedStructure'])
    zl, zs = k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0))
    f = getattr(cdm if name.startswith('CDM') else wdm, name)
    k.begin()
    out = k.run(f, zl, zs, *{'WDM': (7.5,), 'WDM_mixed': (7.5, 0.4), 'WDMGeneral': (7.5, -2.0)}.get(name, ()))
    w.setting(zl, zs, 6.0, 'DOUBLE_CONE', None)
    r = w.renders[0]
    two = name == 'CDMCorrelatedStructure'
    pops = {'CDMBinned': ['SUBHALOS'] * 2 + ['LINE_OF_SIGHT'] * 2 + ['TWO_HALO'] * 2, 'CDMCorrelatedStructure': ['TWO_HALO']}
    k.check('populations', list(r['population_model_list']) == pops.get(name, ['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO']))
    k.check('truncated NFW profiles', r['mdef_subhalos'] == 'TNFW' and r['mdef_field_halos'] == 'TNFW' and r['kwargs_halo_model']['kwargs_density_profile'] == {})
    k.check('correlated structure as measured', r['two_halo_Lazar_correction'] is True and r.get('scale_2halo_boost_factor', 1.0) == 1.0)
    k.check('default plane spacing', r.get('lens_plane_spacing') is None)
    for p, kw in zip(r['population_model_list'], r['kwargs_mass_function_list']):
        k.same(p + ': host mass', kw['log_m_host'], 13.3)
        k.same(p + ': pivot', kw['m_pivot'], 10 ** 8)
        if name != 'CDMBinned':
            k.same(p + ': mass range', (kw['log_mlow'], kw['log_mhigh']), (6.0, 10.0))
        if p == 'SUBHALOS':
            k.same('subhalos: amplitude', kw['sigma_sub'], 0.1 if name == 'CDMBinned' else 0.025)
            k.same('subhalos: slope', kw['power_law_index'], -1.9)
            k.same('subhalos: scaling', (kw['host_scaling_factor'], kw['redshift_scaling_factor']), (0.55, 0.37))
        else:
            k.same(p + ': amplitude', kw['LOS_normalization'], 1.0)
        k.same(p + ': slope tilt', kw['delta_power_law_index'], 0.0)
    h = r['kwargs_halo_model']
    k.check('field halos: truncation', h['truncation_model_field_halos'].kind[1] == 'TRUNCATION_RN')
    conc = {'CDM': 'LUDLOW2016', 'CDMBinned': 'BINNED_HALO_MASS', 'WDM': 'BOSE2016', 'WDM_mixed': 'BOSE2016', 'WDMGeneral': 'LUDLOW_WDM',
            'CDMCorrelatedStructure': 'LUDLOW2016'}[name]
    k.check('concentrations', all(h['concentration_model_' + q].kind[1] == conc for q in ('subhalos', 'field_halos')))
    if not two:
        k.check('subhalos: truncation', h['truncation_model_subhalos'].kind[1] == 'TRUNCATION_GALACTICUS')
        k.check('infall', w.infall[0][0] == 'HYBRID_INFALL')
        k.same('infall: host mass', w.infall[0][1]['log_m_host'], 13.3)
        k.check('subhalos: positions', r['spatial_distribution_class_list'][0] is (Uniform if name.startswith('CDM') else ProjectedNFW))
        ch = h['truncation_model_subhalos'].kwargs['c_host']
        host = {'WDM': 'BOSE2016', 'WDM_mixed': 'BOSE2016', 'WDMGeneral': 'DIEMERJOYCE19'}.get(name)
        k.same('subhalos: host concentration', ch, 6.0 if host is None else w.median[host](10 ** 13.3, zl))
    post(k, w, out, dict(mass_threshold=5 * 10 ** 10, galaxy_model='GNFW') if name in ('WDMGeneral', 'CDMCorrelatedStructure') else None)


@contract('unknown options are refused', ['CDM', 'WDM', 'WDMGeneral', 'CDMBinned'], seeds=20)
def refused(k):
    import pyHalo.Rendering.MassFunctions.stucker as st
    from pyHalo.PresetModels.cdm import CDM, CDMBinned
    from pyHalo.PresetModels.wdm import WDM, WDMGeneral
    w = Presets(k)
    k.override(st.stucker_suppression_params, lambda slope, *a: (1.0, 1.0, -1.0))
    wdm, gen = {'log_mc': 7.0}, {'log_mc': 7.0, 'dlogT_dlogk': -2.0}
    f, kw = k.choice('call', [(CDM, {'halo_mass_profile': 'GNFW'}), (CDM, {'halo_mass_profile': 'tnfw'}), (CDMBinned, {'halo_mass_profile': 'PT_MASS'}),
                              (CDM, {'subhalo_spatial_distribution': 'NFW'}), (WDM, dict(wdm, subhalo_spatial_distribution='uniform')),
                              (WDMGeneral, dict(gen, subhalo_spatial_distribution=None)), (WDM, dict(wdm, mass_function_model_subhalos='CDM')),
                              (WDM, dict(wdm, mass_function_model_fieldhalos=''))])
    k.begin()
    k.check('refused', k.call(f, 0.5, 1.5, **kw).raised(Exception))
    k.check('nothing rendered', w.renders == [])


@contract('rendering entry point', ['pyHalo.render', 'pyHalo._render_masses_positions', 'pyHalo._create_realization'], seeds=60)
def render(k):
    import pyHalo.pyhalo as p
    zl, zs = k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0))
    count = k.choice('realizations', [0, 1, 2])
    n = [k.size('halos%d' % i, 0, 4) for i in range(2)]
    gens = (('m', Real(1e6, 1e10)), ('x', Real(-3, 3)), ('y', Real(-3, 3)), ('r', Real(0, 300)), ('z', Real(0.1, 2)), ('sub', Bool()))
    cols = [[k.array('%s%d' % (q, i), n[i], g) for q, g in gens] for i in range(2)]
    lens = k.obj(what='LENS')
    subs, fields = k.choice('profiles', [('TNFW', 'NFW'), ('ULDM', 'TNFW')])
    made, planes, built = [], [], []
    k.override(p.generate_lens_plane_redshifts, lambda a, b, spacing=None: (planes.append((a, b, spacing)), ('ZZ%d' % len(planes), 'DZ%d' % len(planes)))[1])
    names = ('population_model_list', 'mass_function_class_list', 'kwargs_mass_function', 'spatial_distribution_class_list', 'kwargs_spatial_distribution',
             'lens_cosmo', 'geometry', 'lens_plane_redshifts', 'redshift_spacing', 'two_halo_Lazar_correction', 'scale_2halo_boost_factor')

    def population(*a, **kw):
        i = len(built)
        built.append(dict(zip(names, a), **kw))
        return k.obj(render=lambda: tuple(cols[i]), rendering_classes='CLASSES%d' % i)
    k.override(p.HaloPopulation, population)
    real = ('masses', 'x', 'y', 'r3d', 'mdefs', 'z', 'subhalo_flag', 'lens_cosmo')
    k.override(p.Realization, lambda *a, **kw: (made.append(dict(zip(real, a), **kw)), 'REALIZATION%d' % len(made))[1])
    boost, dz, lazar = k.real('boost', Real(0, 3)), k.real('spacing', Real(0.01, 0.1)), k.bool('lazar')
    given = k.choice('optional', [True, False])
    ph = k.new(p.pyHalo, zlens=zl, zsource=zs, lens_cosmo=lens)
    k.begin()
    args = (['P'], ['M'], [{'m': 1}], ['S'], [{'s': 1}], 'GEOMETRY', subs, fields, {'halo': 1})
    if given:
        out = k.run(ph.render, *args, lazar, boost, nrealizations=count, lens_plane_spacing=dz)
    else:
        count = 1
        out = k.run(ph.render, *args)
    k.check('as many realizations as asked for', list(out) == ['REALIZATION%d' % (i + 1) for i in range(count)] and len(made) == count and len(built) == count)
    for i in range(count):
        b, r = built[i], made[i]
        k.check('planes between observer and source of this lens', planes[i][0] is zl and planes[i][1] is zs and (planes[i][2] is dz if given else planes[i][2] is None))
        k.check('population as requested', b['population_model_list'] == ['P'] and b['mass_function_class_list'] == ['M'] and b['kwargs_mass_function'] == [{'m': 1}]
                and b['spatial_distribution_class_list'] == ['S'] and b['kwargs_spatial_distribution'] == [{'s': 1}] and b['lens_cosmo'] is lens
                and b['geometry'] == 'GEOMETRY')
        k.check('on these planes', b['lens_plane_redshifts'] == 'ZZ%d' % (i + 1) and b['redshift_spacing'] == 'DZ%d' % (i + 1))
        k.check('correlated structure', (b['two_halo_Lazar_correction'] is lazar and b['scale_2halo_boost_factor'] is boost) if given else
                (b.get('two_halo_Lazar_correction', True) is True and b.get('scale_2halo_boost_factor', 1.0) == 1.0))
        for q, col in zip(('masses', 'x', 'y', 'r3d', 'z', 'subhalo_flag'), cols[i]):
            k.same('realization: ' + q, r[q], col)
        k.same('each halo has the profile of its kind', r['mdefs'], k.map(lambda s: k.ite(s, subs, fields), cols[i][5]))
        k.check('realization settings', r['lens_cosmo'] is lens and r['kwargs_halo_model'] == {'halo': 1} and r['mass_sheet_correction'] is True
                and r['rendering_classes'] == 'CLASSES%d' % i and r['geometry'] == 'GEOMETRY')


@contract('cosmology of the entry point', ['pyHalo.__init__', 'pyHalo.astropy_cosmo'], seeds=40)
def setup(k):
    import pyHalo.pyhalo as p
    zl, zs = k.real('z_lens', Real(0.1, 1.0)), k.real('z_source', Real(1.2, 4.0))
    h0, ob, om = k.real('H0', Real(60, 80)), k.real('Ob0', Real(0.03, 0.06)), k.real('Om0', Real(0.2, 0.4))
    own = k.choice('cosmology', ['own', 'default'])
    kw = {'H0': h0, 'Ob0': ob, 'Om0': om, 'sigma8': 0.8, 'flat': True, 'ns': 0.96, 'power_law': False} if own == 'own' else None
    flat, made, lens = [], [], []
    k.override(p.FlatLambdaCDM, lambda **q: (flat.append(q), 'ASTROPY')[1])
    co = k.obj(astropy='ITS ASTROPY', colossus='COLOSSUS')
    k.override(p.Cosmology, lambda astropy_instance=None, cosmo_kwargs={}: (made.append((astropy_instance, cosmo_kwargs)), co)[1])
    k.override(p.LensCosmo, lambda *a, **q: (lens.append((a, q)), 'LENS COSMO')[1])
    k.begin()
    ph = k.run(p.pyHalo, zl, zs, kw) if own == 'own' else k.run(p.pyHalo, zl, zs)
    k.check('one cosmology', len(made) == 1 and ph.cosmology is co)
    if own == 'own':
        k.check('expansion of the requested parameters', made[0][0] == 'ASTROPY' and len(flat) == 1 and flat[0]['H0'] is h0 and flat[0]['Ob0'] is ob
                and flat[0]['Om0'] is om)
        k.check('requested parameters', made[0][1] == kw)
    else:
        from pyHalo.defaults import cosmo_default
        k.check('default cosmology', made[0][0] is None and made[0][1] == cosmo_default.cosmo_param_dictionary)
    a = dict(zip(('z_lens', 'z_source', 'cosmology'), lens[0][0]), **lens[0][1])
    k.check('lens in this cosmology', len(lens) == 1 and a['z_lens'] is zl and a['z_source'] is zs and a['cosmology'] is co and ph.lens_cosmo == 'LENS COSMO')
    k.check('redshifts kept', ph.zlens is zl and ph.zsource is zs)
    k.check('astropy view', k.get(ph, 'astropy_cosmo') == 'ITS ASTROPY')


@contract('prompt cusps on request', ['WDM', 'WDMGeneral'], seeds=20)
def prompt_cusps(k):
    import pyHalo.Rendering.MassFunctions.stucker as st
    import pyHalo.realization_extensions as ext
    from pyHalo.PresetModels.wdm import WDM, WDMGeneral
    there = hasattr(ext.RealizationExtensions, 'add_prompt_cusps')
    w = Presets(k)
    k.override(st.stucker_suppression_params, lambda slope, *a: (1.0, 1.0, -1.0))
    w.cusps = there
    name = k.choice('preset', ['WDM', 'WDMGeneral'])
    f, more = {'WDM': (WDM, {'log_mc': 7.0}), 'WDMGeneral': (WDMGeneral, {'log_mc': 7.0, 'dlogT_dlogk': -2.0})}[name]
    k.begin()
    out = k.call(f, 0.5, 1.5, include_prompt_cusps=True, **more)
    k.check('prompt cusps, ' + name, out.ok)
