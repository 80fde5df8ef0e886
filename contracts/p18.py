"""amplitude of convergence sheets"""
from engine.api import contract
from engine.kit import Real, Bool
from .common import posgen

PROPERTY = dict(
    title='Mass sheets remove exactly the expected mass of each plane, scaled',
    statement="""For every lens plane within the redshift limits (all of them if none are given), the line-of-sight population asks
    for one sheet whose convergence is minus the scale factor times the mean mass of that plane's mass function, between the
    requested (or the population's own) mass limits, over the critical mass of the cone's physical area there; planes
    without expected mass get no sheet. Subhalos ask for one such sheet at the lens redshift, or none if no mass is expected.""",
    over=['inputs', 'configurations'],
    forall='every list of planes, redshift limits, scale factors, mass limits (constant or redshift dependent) and mass function',
    tests='the mass sheet tests need the lensing library',
    files=['pyHalo/Rendering/line_of_sight.py', 'pyHalo/Rendering/subhalos.py', 'pyHalo/Rendering/rendering_class_base.py'],
    mechanism=[('LineOfSight.convergence_sheet_correction', 'pyHalo/Rendering/line_of_sight.py'),
               ('Subhalos.convergence_sheet_correction', 'pyHalo/Rendering/subhalos.py'),
               ('RenderingClassBase.convergence_sheet_correction', 'pyHalo/Rendering/rendering_class_base.py')],
)


def parts(k):
    area = k.fn('area', posgen(k, 0.1, 10))
    sig = k.fn('sigma_crit_mass', posgen(k, 1, 100))
    th = k.real('theta', Real(0.1, 60))
    g = k.obj(angle_to_physical_area=area, cone_opening_angle=th, _zsource=k.real('z_source', Real(0.5, 4)))
    mom = k.fn('first_moment', Real(0, None, pool=(0.0,)) if k.sym else Real(0, 10, pool=(0.0,)))
    return area, sig, th, g, mom


def ranges(k):
    lo, hi = k.real('lo', Real(5, 7)), k.real('hi', Real(8, 10))
    flo, fhi = k.fn('lo_z', Real(5, 7)), k.fn('hi_z', Real(8, 10))
    dlo, dhi = k.choice('mass range depends on redshift', [(False, False), (True, True), (True, False), (False, True)])
    return lo, hi, flo, fhi, dlo, dhi


@contract('line of sight', ['LineOfSight.convergence_sheet_correction', 'LineOfSight._convergence_at_z',
                            'LineOfSightNoSheet._get_mass_function_model', 'RenderingClassBase._redshift_dependent_mass_range'])
def los(k):
    from pyHalo.Rendering.line_of_sight import LineOfSight
    area, sig, th, g, mom = parts(k)
    lo, hi, flo, fhi, dlo, dhi = ranges(k)
    own = k.bool('own mass range')
    lo2, hi2 = k.real('lo2', Real(5, 7)), k.real('hi2', Real(8, 10))
    n = k.size('planes', 0)
    zs, dz = k.list('z', n, Real(0.01, 4, pool=(0.5,), tie='z')), k.list('dz', n, Real(0.01, 0.1))
    zmin = k.real('zmin', Real(0, 3, pool=(0.5,), tie='z')) if k.bool('zmin given') else None
    zmax = k.real('zmax', Real(0, 3, pool=(0.5,), tie='z')) if k.bool('zmax given') else None
    s = k.real('scale', Real(0, 2, pool=(1.0, 0.5)))
    mf = k.obj(from_redshift=lambda z, d, geo, kw: k.obj(first_moment=mom(z, d, kw['log_mlow'], kw['log_mhigh'])))
    kw = {'log_mlow': flo if dlo else lo, 'log_mhigh': fhi if dhi else hi}
    r = k.run(LineOfSight, mf, kw, 'SPATIAL', g, k.obj(sigma_crit_mass=sig), zs, dz)
    k.begin()
    sheets, names, zout = k.run(r.convergence_sheet_correction, s, lo2, hi2, zmin, zmax, own)

    def mass(p):
        a, b = (flo(p[0]) if dlo else lo, fhi(p[0]) if dhi else hi) if own else (lo2, hi2)
        return mom(p[0], p[1], a, b)

    def wanted(p):
        z = p[0]
        return k.And(z >= (0.0 if zmin is None else zmin), z <= (g._zsource if zmax is None else zmax), mass(p) > 0)
    kept = k.filter(wanted, k.zip(zs, dz))
    k.same('redshifts', zout, k.map(lambda p: p[0], kept))
    k.same('convergence', k.map(lambda d: d['kappa'], sheets), k.map(lambda p: -s * (mass(p) / sig(p[0], area(th / 2, p[0]))), kept))
    k.same('profile names', names, k.map(lambda p: 'CONVERGENCE', kept))


@contract('subhalos', ['Subhalos.convergence_sheet_correction'])
def subhalos(k):
    from pyHalo.Rendering.subhalos import Subhalos
    area, sig, th, g, mom = parts(k)
    lo, hi, flo, fhi, dlo, dhi = ranges(k)
    own = k.bool('own mass range')
    lo2, hi2 = k.real('lo2', Real(5, 7)), k.real('hi2', Real(8, 10))
    s = k.real('scale', Real(0, 2, pool=(1.0, 0.5)))
    zl = k.real('z_lens', Real(0.05, 2))
    kw = {'log_mlow': flo if dlo else lo, 'log_mhigh': fhi if dhi else hi, 'power_law_index': -1.9, 'delta_power_law_index': 0.0,
          'dndA': 0.1, 'm_pivot': 1e8}
    lc = k.obj(z_lens=zl, sigma_crit_mass=sig, cosmo=k.obj(kpc_proper_per_asec=k.fn('kpc', posgen(k, 1, 9))))
    r = k.run(Subhalos, lambda **kws: k.obj(first_moment=mom(kws['log_mlow'], kws['log_mhigh'])), kw, 'SPATIAL', g, lc)
    k.begin()
    sheets, names, zout = k.run(r.convergence_sheet_correction, s, lo2, hi2, own)
    a, b = (flo(zl) if dlo else lo, fhi(zl) if dhi else hi) if own else (lo2, hi2)
    if mom(a, b) > 0:
        k.same('one sheet at the lens', [zout, names], [[zl], ['CONVERGENCE']])
        k.eq('convergence', sheets[0]['kappa'], -s * (mom(a, b) / sig(zl, area(th / 2, zl))))
        k.check('one set of options', len(sheets) == 1)
    else:
        k.check('no sheet', len(sheets) == 0 and len(names) == 0 and len(zout) == 0)


@contract('populations without sheets', ['RenderingClassBase.convergence_sheet_correction'])
def none(k):
    from pyHalo.Rendering.line_of_sight import LineOfSightNoSheet
    from pyHalo.Rendering.two_halo import TwoHaloContribution
    cls = k.choice('population', [LineOfSightNoSheet, TwoHaloContribution])
    r = k.new(cls)
    k.begin()
    out = k.run(k.get(r, 'convergence_sheet_correction'), 1.0, 6.0, 10.0, None, None, True)
    k.check('no sheet', tuple(out) == ([], [], []))
