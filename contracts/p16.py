"""two-halo term"""
from engine.api import contract
from engine.kit import Real
from .common import posgen

PROPERTY = dict(
    title='Two-halo boost rescales the field abundance by the mean correlated overdensity',
    statement="""Correlated structure around the main deflector is the field population with its amplitude multiplied by a boost and
    everything else unchanged: twice the average, along the line of sight from half a comoving Mpc to the end of the slice of the
    lens plane nearest the deflector, of the two-halo term of the host (plus, if requested, the Lazar et al. correction
    0.1 (r/(5 r200))^-4 with the host's own r200), times the user's scale factor. The host mass may be given as mass or log10 mass;
    without it the request is refused, and the caller's options are never modified.""",
    over=['inputs', 'configurations'],
    forall='every host mass, deflector redshift, list of planes and spacings, correction switch, scale factor and cosmology',
    tests='the two-halo tests need the lensing library and check one configuration',
    files=['pyHalo/Rendering/two_halo.py'],
    mechanism=[('TwoHaloContribution.__init__', 'pyHalo/Rendering/two_halo.py'),
               ('two_halo_enhancement_factor', 'pyHalo/Rendering/two_halo.py'), ('modificationLazar2021', 'pyHalo/Rendering/two_halo.py')],
)


def lens(k):
    import numpy as np
    zl = k.real('z_lens', Real(0.05, 2, pool=(0.5,)))
    D = k.fn('D_C_transverse', posgen(k), impl=lambda z: 3000.0 * float(z) / (1 + 0.3 * float(z)))
    term = k.fn('two_halo_term', Real(0, None) if k.sym else Real(0, 5), impl=lambda r, m, z: 2.0 * (1 + r) ** -1.3 * (m / 1e13) ** 0.2 * (1 + z))
    r200 = k.fn('r200', posgen(k), impl=lambda m, c, z: 200.0 * (m / 1e13) ** 0.33 / (1 + 0.01 * c) / (1 + z))
    lc = k.obj(z_lens=zl, cosmo=k.obj(D_C_transverse=D, astropy='ASTROPY'), twohaloterm=term,
               NFW_params_physical=lambda m, c, z: (1.0, 2.0, r200(m, c, z)))
    return lc, zl, D, term, r200


def boost_of(k, lc, m, r200_mpc, zl, dz, lazar, s, D, term):
    rmax = D(zl + dz) - D(zl)
    k.assume(rmax > 0.5)
    f = (lambda r: term(r, m, zl) + 0.1 * (r / r200_mpc / 5) ** -4.0) if lazar else (lambda r: term(r, m, zl))
    return s * (2 * k.quad(f, 0.5, rmax) / (rmax - 0.5))


@contract('enhancement factor', ['two_halo_enhancement_factor', '_boost_integrand', 'modificationLazar2021'])
def factor(k):
    from pyHalo.Rendering.two_halo import two_halo_enhancement_factor
    lc, zl, D, term, r200 = lens(k)
    dz = k.real('dz', Real(0.005, 0.1, pool=(0.02,)))
    m, r = k.real('m', Real(1e12, 1e15, log=True)), k.real('r200_mpc', Real(0.05, 2))
    lazar = k.choice('Lazar correction', [True, False])
    s = k.choice('scale given', [True, False])
    sc = k.real('scale', Real(0, 3, pool=(1.0, 0.0)))
    want = boost_of(k, lc, m, r, zl, dz, lazar, sc if s else 1.0, D, term)
    k.begin()
    got = k.run(two_halo_enhancement_factor, zl, dz, lc, m, r, lazar, *([sc] if s else []))
    k.eq('boost', got, want, rtol=1e-6)


@contract('rescaled field population', ['TwoHaloContribution.__init__', 'two_halo_enhancement_factor'])
def init(k):
    import pyHalo.Rendering.two_halo as th
    lc, zl, D, term, r200 = lens(k)
    conc = k.fn('concentration', posgen(k, 3, 20))
    made = []

    def model(cosmo, scatter=True, **kw):
        made.append((cosmo, scatter, kw))
        return k.obj(nfw_concentration=conc)
    k.override(th.ConcentrationDiemerJoyce, model)
    n = k.size('planes', 1)
    zs, dzs = k.list('z', n, Real(0.01, 3, pool=(0.5,))), k.list('dz', n, Real(0.005, 0.1))
    how = k.choice('host mass given as', ['m200', 'log', 'both'])
    mh, lm = k.real('m_host', Real(1e12, 1e15, log=True)), k.real('log_m_host', Real(12, 15))
    norm = k.real('LOS_normalization', Real(0, 3, pool=(1.0,)))
    kw = {'LOS_normalization': norm, 'log_mlow': 6.0, 'other': [1]}
    if how != 'log':
        kw['host_m200'] = mh
    if how != 'm200':
        kw['log_m_host'] = lm
    m = 10 ** lm if how == 'log' else mh
    lazar = k.choice('Lazar correction', [None, True, False])
    sc = k.real('scale', Real(0, 3, pool=(1.0, 0.0)))
    extra = {} if lazar is None else {'use_Lazar_correction': lazar, 'scale_2halo_boost_factor': sc}
    import numpy as np
    dz = k.at(dzs, k.run(np.argmin, k.map(lambda z: k.max(z - zl, zl - z), zs)))
    want = boost_of(k, lc, m, r200(m, conc(m, zl), zl) * 1e-3, zl, dz, lazar is not False, 1.0 if lazar is None else sc, D, term)
    given = dict(kw)
    k.begin()
    r = k.run(th.TwoHaloContribution, 'MODEL', kw, 'SPATIAL', 'GEOMETRY', lc, zs, dzs, **extra)
    k.eq('amplitude', r._kwargs_mass_function['LOS_normalization'], norm * want, rtol=1e-6)
    k.eq('slice thickness', r._delta_z, dz)
    k.check('host concentration: median, in this cosmology', made[0][0] == 'ASTROPY' and made[0][1] is False and not made[0][2])
    k.check('other options unchanged', all(r._kwargs_mass_function[q] == given[q] for q in ('log_mlow', 'other')))
    k.check("caller's options kept", kw['other'] == [1] and all(kw[q] is given[q] for q in given))
    k.check('model, positions, geometry, lens, planes', r._mass_function_model == 'MODEL' and r._spatial_distribution_model == 'SPATIAL'
            and r._geometry == 'GEOMETRY' and r._lens_cosmo is lc and r._lens_plane_redshifts is zs and r._delta_z_list is dzs)


@contract('no host mass', ['TwoHaloContribution.__init__'])
def refused(k):
    import pyHalo.Rendering.two_halo as th
    lc, zl, D, term, r200 = lens(k)
    k.begin()
    o = k.call(th.TwoHaloContribution, 'MODEL', {'LOS_normalization': 1.0}, 'SPATIAL', 'GEOMETRY', lc, [zl], [0.02])
    k.check('refused', o.raised(Exception))
