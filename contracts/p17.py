"""subhalo abundance"""
from engine.api import contract
from engine.kit import Real
from .common import posgen

PROPERTY = dict(
    title='Subhalo abundance follows host mass, redshift and projected area as configured',
    statement="""The subhalo mass function has the requested slope plus its offset, the mass range at the lens redshift, and an
    amplitude such that the projected number density per area and log-slope at the pivot mass is the requested one over the
    physical area inside half the opening angle at the lens: either given directly per area, or as sigma_sub times
    (M_host/1e13)^k1 (z+0.5)^k2, which is one for a 1e13 solar mass host at redshift 0.5. A host mass given as log10 is equivalent to
    the mass itself, other amplitude conventions are refused, and the caller's options are never modified.""",
    over=['inputs', 'configurations'],
    forall='every amplitude, host mass, redshift, scaling exponents, slope, offset, pivot, opening angle, constant or redshift-dependent mass range',
    tests='the subhalo tests need the lensing library and check one host',
    files=['pyHalo/Rendering/subhalos.py'],
    mechanism=[('Subhalos._get_mass_function_model', 'pyHalo/Rendering/subhalos.py'),
               ('normalization_sigmasub', 'pyHalo/Rendering/subhalos.py'), ('host_scaling_function', 'pyHalo/Rendering/subhalos.py')],
)


def host(k):
    return k.real('m_host', Real(1e11, 1e16, log=True, pool=(1e13,)))


@contract('host scaling', ['host_scaling_function'])
def scaling(k):
    from pyHalo.Rendering.subhalos import host_scaling_function
    m, z = host(k), k.real('z', Real(0.01, 3, pool=(0.5,)))
    k1, k2 = k.real('k1', Real(-1, 3, pool=(0.88, 0.0))), k.real('k2', Real(-1, 4, pool=(1.7, 0.0)))
    given = k.bool('given')
    k.begin()
    got = k.run(host_scaling_function, m, z, *([k1, k2] if given else []))
    if not given:
        k1, k2 = 0.88, 1.7
    k.eq('scaling', got, (m / 1e13) ** k1 * (z + 0.5) ** k2)
    k.eq('one at the reference host', k.run(host_scaling_function, 1e13, 0.5, k1, k2), 1)


@contract('amplitude', ['Subhalos.__init__', 'Subhalos._get_mass_function_model', 'normalization_sigmasub', 'RenderingClassBase._redshift_dependent_mass_range'], again=('Subhalos', '_get_mass_function_model'))
def amplitude(k):
    from pyHalo.Rendering.subhalos import Subhalos
    zl, th = k.real('z_lens', Real(0.05, 2, pool=(0.5,))), k.real('theta', Real(0.1, 60))
    kpc = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    m, lm = host(k), k.real('log_m_host', Real(11, 16, pool=(13.0,)))
    p, d = k.real('slope', Real(-3, -0.5, pool=(-1.9, -1.0))), k.real('delta', Real(-1, 1, pool=(0.0,)))
    pivot = k.real('pivot', Real(1e6, 1e10, log=True, pool=(1e8,)))
    lo, hi, flo, fhi = k.real('lo', Real(5, 7)), k.real('hi', Real(8, 11)), k.fn('flo', Real(5, 7)), k.fn('fhi', Real(8, 11))
    dlo, dhi = k.choice('mass range depends on redshift', [(False, False), (True, True), (True, False), (False, True)])
    how = k.choice('amplitude', ['sigma_sub', 'dndA'])
    a = k.real('amplitude_value', Real(0, 1, pool=(0.0, 0.025)))
    k1, k2 = k.real('k1', Real(-1, 3, pool=(0.88, 0.0))), k.real('k2', Real(-1, 4, pool=(1.7, 0.0)))
    log = k.bool('log10 host mass')
    kw = {'log_mlow': flo if dlo else lo, 'log_mhigh': fhi if dhi else hi, 'power_law_index': p, 'delta_power_law_index': d, 'm_pivot': pivot,
          'host_scaling_factor': k1, 'redshift_scaling_factor': k2, how: a, 'draw_poisson': False, 'log_mc': 7.0}
    kw.update({'log_m_host': lm} if log else {'host_m200': m})
    replaced = k.choice('other mass range', [False, True])
    lo2, hi2 = k.real('lo2', Real(5, 7)), k.real('hi2', Real(8, 11))
    given = dict(kw)
    seen = []

    def model(**kws):
        seen.append(kws)
        return 'MASS FUNCTION'
    lc = k.obj(z_lens=zl, cosmo=k.obj(kpc_proper_per_asec=kpc))
    k.begin()
    r = k.run(Subhalos, model, kw, 'SPATIAL', k.obj(cone_opening_angle=th), lc)
    out = k.run(r._get_mass_function_model, *([lo2, hi2] if replaced else []))
    s = seen[0]
    k.check('the mass function', out == 'MASS FUNCTION' and len(seen) == 1)
    area = k.pi * (kpc(zl) * th / 2) ** 2
    mh = 10 ** lm if log else m
    per_area = a * ((mh / 1e13) ** k1 * (zl + 0.5) ** k2 if how == 'sigma_sub' else 1)
    k.eq('slope', s['power_law_index'], p + d)
    k.eq('amplitude', s['normalization'], area * per_area * pivot ** -(p + d + 1))
    k.eq('lowest mass', s['log_mlow'], lo2 if replaced else flo(zl) if dlo else lo)
    k.eq('highest mass', s['log_mhigh'], hi2 if replaced else fhi(zl) if dhi else hi)
    k.check('other options', s['draw_poisson'] is False and s['log_mc'] == 7.0 and s['m_pivot'] is pivot)
    k.check("caller's options kept", sorted(kw) == sorted(given) and all(kw[q] is given[q] for q in given))
    again = k.run(r._get_mass_function_model)
    k.eq('the same next time', seen[1]['normalization'], s['normalization'])
    k.eq('the same mass range next time', seen[1]['log_mlow'], flo(zl) if dlo else lo)


@contract('other amplitude conventions', ['Subhalos._get_mass_function_model'])
def refused(k):
    from pyHalo.Rendering.subhalos import Subhalos
    kw = {'log_mlow': 6.0, 'log_mhigh': 10.0, 'power_law_index': -1.9, 'delta_power_law_index': 0.0, 'm_pivot': 1e8, 'host_m200': 1e13,
          'f_sub': k.real('f_sub', Real(0, 1))}
    lc = k.obj(z_lens=0.5, cosmo=k.obj(kpc_proper_per_asec=lambda z: 6.0))
    k.begin()
    r = k.run(Subhalos, 'MODEL', kw, 'SPATIAL', k.obj(cone_opening_angle=6.0), lc)
    k.check('refused', k.call(r._get_mass_function_model).raised(Exception))
