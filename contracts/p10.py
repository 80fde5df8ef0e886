"""cosmology: distances, ages, caches"""
from engine.api import contract
from engine.kit import Real
from .common import posgen

PROPERTY = dict(
    title='Cosmology: distances and ages are the configured cosmology\'s, cached or not',
    statement="""Every distance, age and density query returns the value of the configured cosmology: tabulated values inside the table
    (nodes taken from that cosmology at every redshift step), the exact angular diameter distance (and its comoving
    counterpart) outside it, ages as time since formation and zero before it. Asking again for the same redshift, in any
    order of queries, returns the same value, so memory of earlier queries is never visible. User-given cosmological
    parameters are used for both underlying cosmology libraries, defaults only for the missing ones.""",
    over=['inputs', 'histories', 'configurations'],
    forall='every redshift in and out of the tables, every order of repeated queries, every subset of given parameters',
    tests='the cosmology tests cannot run here; cache and fallback behaviour depends on the history of queries',
    files=['pyHalo/Cosmology/cosmology.py'],
    mechanism=[('Cosmology.D_A_z, D_C_z, D_A, kpc_proper_per_asec, halo_age', 'pyHalo/Cosmology/cosmology.py'),
               ('Cosmology._interp_*', 'pyHalo/Cosmology/cosmology.py')],
)

ZMAX = 4.0


def table(k, name, lo=0.02, hi=4.0, rng=None):
    """interpolation table: refuses redshifts outside [lo, hi], like scipy's"""
    f = k.fn(name, rng or posgen(k))

    def look(z):
        if k.is_seq(z):
            if k.exists(lambda v: k.Or(v < lo, v > hi), z):
                raise ValueError('outside the table')
        elif k.Or(z < lo, z > hi):
            raise ValueError('outside the table')
        return f(z)
    return look, f


def quantity(k, f):
    return lambda *a: k.obj(value=f(*a))


def cosmo(k):
    from pyHalo.Cosmology.cosmology import Cosmology
    ada = k.fn('DA_exact', posgen(k))
    dct = k.fn('DC_exact', posgen(k))
    age = k.fn('age', Real(0.1, 14))
    rho = k.fn('rho_crit', posgen(k))
    ast = k.obj(angular_diameter_distance_z1z2=quantity(k, ada), comoving_transverse_distance=quantity(k, dct),
                efunc=k.fn('E', posgen(k)), age=quantity(k, age), critical_density=quantity(k, rho), h=0.7,
                Odm=k.fn('Odm', Real(0.1, 0.4)))
    da, fda = table(k, 'DA_table')
    dc, fdc = table(k, 'DC_table')
    kp, fkp = table(k, 'kpc_table', 0.001, 4.0)
    ag, fag = table(k, 'age_table', 0.0, 20.0, Real(0.1, 14))
    c = k.new(Cosmology, astropy=ast, _cache_DAz={}, _cache_DCz={}, _cache_kpc={}, _cache_age={}, _cache_DA2={},
              _DA_interp=da, _DC_interp=dc, _kpc_per_asec_interp=kp, _age_interp=ag)
    c.spec = dict(ada=ada, dct=dct, age=age, da=fda, dc=fdc, kp=fkp, ag=fag, rho=rho)
    return c


def inside(k, z):
    return k.And(k.Not(z < 0.02), k.Not(z > ZMAX))


ZQ = lambda: Real(0.005, 6, pool=(0.02, 0.5, 4.0, 4.5, 0.01))


def expected(k, c, q, z):
    s = c.spec
    da = k.ite(inside(k, z), s['da'](z), s['ada'](0, z))
    if q == 'D_A_z':
        return da
    if q == 'D_C_z':
        return k.ite(inside(k, z), s['dc'](z), da * (1 + z))
    if q == 'kpc_proper_per_asec':
        return s['kp'](z)
    if q == 'D_C_transverse':
        return s['dct'](z)
    if q == 'E_z':
        return c.astropy.efunc(z)
    if q == 'scale_factor':
        return 1 / (1 + z)


QS = ['D_A_z', 'D_C_z', 'kpc_proper_per_asec', 'D_C_transverse', 'E_z', 'scale_factor']


@contract('single queries, every redshift; repeats in any order', ['Cosmology.D_A_z', 'Cosmology.D_C_z', 'Cosmology.D_A',
                                                                  'Cosmology.kpc_proper_per_asec', 'Cosmology.scale_factor'])
def queries(k):
    c = cosmo(k)
    q1, q2 = k.choice('first', QS[:3]), k.choice('second', QS)
    z1, z2 = k.real('z1', ZQ()), k.real('z2', ZQ())
    if 'kpc_proper_per_asec' in (q1, q2):
        k.assume(k.And(z1 <= ZMAX, z2 <= ZMAX))
    k.begin()
    for n, (q, z) in enumerate([(q1, z1), (q2, z2), (q1, z1), (q1, z2) if q2 != 'kpc_proper_per_asec' else (q2, z2)]):
        k.eq('query %d' % (n + 1), k.run(k.get(c, q), z), expected(k, c, q, z))


@contract('angular diameter distance between two redshifts', ['Cosmology.D_A'])
def between(k):
    c = cosmo(k)
    a, b, d = k.real('a', Real(0, 3, pool=(0.5,))), k.real('b', Real(0, 3, pool=(0.5,))), k.real('d', Real(0, 3, pool=(0.5,)))
    k.begin()
    for n, (x, y) in enumerate([(a, b), (b, a), (a, d), (a, b)]):
        k.eq('query %d' % (n + 1), k.run(k.get(c, 'D_A'), x, y), c.spec['ada'](x, y))


@contract('halo age', ['Cosmology.halo_age'])
def halo_age(k):
    c = cosmo(k)
    z1, z2 = k.real('z1', Real(0, 12, pool=(0.5, 10.0))), k.real('z2', Real(0, 12, pool=(0.5, 10.0)))
    f1, f2 = k.real('f1', Real(1, 15, pool=(10.0,))), k.real('f2', Real(1, 15, pool=(10.0,)))
    k.begin()
    ag = c.spec['ag']
    for n, (z, f) in enumerate([(z1, f1), (z2, f2), (z1, f2), (z1, f1)]):
        k.eq('query %d' % (n + 1), k.run(k.get(c, 'halo_age'), z, f), k.ite(z > f, 0.0, ag(z) - ag(f)))
    k.eq('default formation redshift 10', k.run(k.get(c, 'halo_age'), z2), k.ite(z2 > 10, 0.0, ag(z2) - ag(10)))


@contract('arrays of redshifts give the single-query values', ['Cosmology.D_A_z', 'Cosmology.D_C_z', 'Cosmology.kpc_proper_per_asec'])
def arrays(k):
    c = cosmo(k)
    n = k.size('n', 0)
    z = k.array('z', n, Real(0.02, 4.0))
    q = k.choice('query', QS)
    k.begin()
    k.same('values', k.run(k.get(c, q), z), k.amap(lambda v: expected(k, c, q, v), z))


@contract('densities', ['Cosmology.rho_crit', 'Cosmology.rho_dark_matter_crit'])
def densities(k):
    c = cosmo(k)
    z = k.real('z', Real(0, 5))
    k.begin()
    unit = 0.001 / c.M_sun * 100 ** 3 * c.Mpc ** 3
    k.eq('critical density', k.run(k.get(c, 'rho_crit'), z), c.spec['rho'](z) * unit)
    k.eq('dark matter density today', k.get(c, 'rho_dark_matter_crit'), c.astropy.Odm(0.0) * c.spec['rho'](0.0) * unit)
    k.check('critical density unit', abs(unit / 1.4775e40 - 1) < 1e-3)


def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - y) < 1e-9 for x, y in zip(a, b))


@contract('the tables hold the cosmology\'s own values', ['Cosmology._interp_angular_diamter_distance',
          'Cosmology._interp_comoving_distance', 'Cosmology._interp_kpc_per_asec', 'Cosmology._halo_age_interp'], seeds=10)
def tables(k):
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.defaults import lenscone_default
    c = cosmo(k)
    inv = k.fn('arcsec_per_kpc', posgen(k))
    c.astropy.arcsec_per_kpc_proper = quantity(k, inv)
    step = lenscone_default.default_z_step
    k.begin()
    f = k.run(k.get(c, '_interp_angular_diamter_distance'))
    zs = [step * (i + 1) for i in range(int(round(4 / step)))]
    k.check('redshift steps', len(f.x) in (len(zs), len(zs) + 1))
    k.check('D_A nodes', near(f.x[:len(zs)], zs))
    k.same('D_A values', list(f.y), [c.spec['ada'](0, float(v)) for v in f.x])
    f = k.run(k.get(c, '_interp_comoving_distance'))
    k.check('D_C nodes', near(f.x[:len(zs)], zs))
    k.same('D_C values', list(f.y), [c.spec['dct'](float(v)) for v in f.x])
    f = k.run(k.get(c, '_interp_kpc_per_asec'))
    k.check('kpc nodes', float(f.x[0]) == 0.001 and 4.0 <= float(f.x[-1]) < 4.05 and len(f.x) >= 161)
    k.same('kpc values', list(f.y), [1 / inv(float(v)) for v in f.x])
    del c._age_interp
    f = k.get(c, '_halo_age_interp')
    k.check('age nodes', near(f.x, [20.0 * i / 249 for i in range(250)]))
    k.same('age values', list(f.y), [c.spec['age'](float(v)) for v in f.x])
    k.check('built once', k.get(c, '_halo_age_interp') is f)


@contract('given parameters win over defaults, in both libraries', ['Cosmology._setup_astropy_cosmology',
                                                                   'Cosmology._setup_colossus_cosmology'])
def setup(k):
    import astropy.cosmology as ac
    from colossus.cosmology import cosmology as cc
    from pyHalo.Cosmology.cosmology import Cosmology, cosmo_defaults
    names = ['H0', 'Om0', 'Ob0', 'ns', 'sigma8', 'power_law']
    subset = k.choice('given', [[], ['H0'], ['Om0', 'sigma8'], ['Ob0', 'ns'], names])
    kw = {n: k.real(n, Real(0.01, 100)) for n in subset}
    own = k.bool('astropy_given')
    got = {}

    def flat(**a):
        got['astropy'] = a
        return 'FLAT'

    def custom(name, a):
        got['colossus'] = (name, a)
        return 'COLOSSUS'
    k.override(ac.FlatLambdaCDM, flat)
    k.override(cc.setCosmology, custom)
    c = k.new(Cosmology)
    k.begin()
    a = k.run(k.get(c, '_setup_astropy_cosmology'), 'MINE' if own else None, kw)
    b = k.run(k.get(c, '_setup_colossus_cosmology'), kw)
    want = {n: kw[n] if n in subset else cosmo_defaults(n) for n in names}
    if own:
        k.check('the given instance is used', a == 'MINE' and 'astropy' not in got)
    else:
        k.check('astropy instance', a == 'FLAT')
        k.same('astropy parameters', got['astropy'], {n: want[n] for n in names[:3]})
    k.check('colossus instance', b == 'COLOSSUS' and c._colossus_cosmo == 'COLOSSUS' and k.get(c, 'colossus') == 'COLOSSUS')
    k.same('colossus parameters', got['colossus'], ('custom', want))
