"""negative mass sheets"""
from engine.api import contract
from engine.kit import Real, Meth
from .common import halos, realization, lens_cosmo, ZH, posgen

PROPERTY = dict(
    title='Mass sheets are requested, sized and centred as configured',
    statement="""Exact mass sheets put, at every lens plane of the realization, one convergence sheet whose amplitude is minus the
    rendered mass there over the critical mass of the cone's area at that redshift. Otherwise every rendering class is asked
    once for its sheets - the subhalo class with the subhalo scaling, the others with the field scaling and redshift limits,
    absent classes skipped - and all sheets are returned in that order with their redshifts and profile names. Every sheet
    is centred on the rendering centre at the comoving distance of its redshift.""",
    over=['inputs', 'configurations'],
    forall='every population, list of rendering classes, sheet options, sheet redshifts and rendering centre',
    tests='no stable test requests a mass sheet',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization._mass_sheet_correction', 'pyHalo/single_realization.py')],
)


@contract('exact sheets', ['Realization._mass_sheet_correction'])
def exact(k):
    area = k.fn('area', posgen(k))
    sc = k.fn('sigma_crit_mass', posgen(k))
    th = k.real('theta', Real(0.1, 10))
    geo = k.obj(cone_opening_angle=th, angle_to_physical_area=area)
    lc = lens_cosmo(k, sigma_crit_mass=sc)
    r = realization(k, lc=lc, geometry=geo)
    mz = k.fn('mass_at_z', Real(0, 1e12))
    r.mass_at_z_exact = mz
    k.begin()
    kw, prof, zs = k.run(k.get(r, '_mass_sheet_correction'), r.rendering_classes, True)
    planes = r.unique_redshifts
    cx, cy = k.get(r, 'rendering_center')
    D = lc.cosmo.D_C_z
    k.same('one sheet per lens plane', zs, planes)
    k.same('convergence sheets', prof, k.map(lambda z: 'CONVERGENCE', planes))
    k.same('sheets', kw, k.map(lambda z: {'kappa': -mz(z) / sc(z, area(0.5 * th, z)), 'ra_0': cx(D(z)), 'dec_0': cy(D(z))}, planes))


def rclass(k, name, tag, log, kind):
    m = k.size('n' + tag, 0)
    a, z = k.list('a' + tag, m, Real(-1, 0)), k.list('z' + tag, m, Real(0.01, 3))

    def sheets(*args):
        log.append((tag, list(args)))
        return k.map(lambda v: {'kappa': v}, a), k.map(lambda v: kind, a), z
    return k.obj(name=name, convergence_sheet_correction=sheets), a, z


@contract('sheets of the rendering classes', ['Realization._mass_sheet_correction'], again=False)
def classes(k):
    lc = lens_cosmo(k)
    log = []
    kinds = k.choice('profiles', [('NFW_SHEET', 'CONVERGENCE', 'CONVERGENCE'), ('CONVERGENCE', 'CONVERGENCE', 'X')])
    sub, sa, sz = rclass(k, 'SUBHALOS', '_s', log, kinds[0])
    los, la, lz = rclass(k, 'LINE_OF_SIGHT', '_l', log, kinds[1])
    two, ta, tz = rclass(k, 'TWO_HALO', '_t', log, kinds[2])
    order = k.choice('classes', ['all', 'none first', 'los only', 'absent'])
    cl = {'all': [sub, los, two], 'none first': [None, los, None, sub], 'los only': [los], 'absent': [None]}[order]
    r = realization(k, lc=lc, rendering_classes=cl)
    ks, kf = k.real('kappa_scale_subhalos', Real(0, 2)), k.real('kappa_scale', Real(0, 2))
    lo, hi = k.real('lo', Real(5, 8)), k.real('hi', Real(8, 11))
    z0, z1 = k.real('zmin', Real(0, 1)), k.real('zmax', Real(1, 4))
    use = k.bool('use')
    k.begin()
    kw, prof, zs = k.run(k.get(r, '_mass_sheet_correction'), r.rendering_classes, False, ks, kf, lo, hi, z0, z1, use)
    table = {'_s': (sa, sz, kinds[0], [ks, lo, hi, use]), '_l': (la, lz, kinds[1], [kf, lo, hi, z0, z1, use]),
             '_t': (ta, tz, kinds[2], [kf, lo, hi, z0, z1, use])}
    names = {'all': ['_s', '_l', '_t'], 'none first': ['_l', '_s'], 'los only': ['_l'], 'absent': []}[order]
    k.same('each class asked once, with its options', [list(e) for e in log], [[t, table[t][3]] for t in names])
    k.same('redshifts', zs, k.concat(*[table[t][1] for t in names]))
    k.same('profiles', prof, k.concat(*[k.map(lambda v, t=t: table[t][2], table[t][0]) for t in names]))
    cx, cy = k.get(r, 'rendering_center')
    D = lc.cosmo.D_C_z

    def one(t):
        a, z, kind, _ = table[t]
        X, Y = ('ra_0', 'dec_0') if kind == 'CONVERGENCE' else ('center_x', 'center_y')
        return k.map(lambda p: {'kappa': p[0], X: cx(D(p[1])), Y: cy(D(p[1]))}, k.zip(a, z))
    k.same('sheets', kw, k.concat(*[one(t) for t in names]))
