"""mass-concentration relations"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen
from .conclib import M, Z, WIDTH, CODE, library, floor, power, cdm_class

PROPERTY = dict(
    title='Concentrations: median relation, log-normal scatter, suppression and a floor',
    statement="""A halo's concentration is the median of its mass-concentration relation at its mass and redshift, times log-normal
    scatter of the configured width (unless scatter is off or the median is asked for), times the dark matter model's suppression
    at that mass and redshift, and never below 1.2; a list of masses gets what each mass would get alone. The suppressions lie
    between 0 and 1 and never rise towards lower mass. Tabulated medians are the bilinear interpolation, in log mass and
    log(1+z), of the exact relation, whatever was asked before. Two models set up one after the other do not influence each
    other, and unphysical parameters or masses outside all bins are refused.""",
    over=['inputs', 'histories', 'configurations'],
    forall='all masses, redshifts, model parameters, scatter draws and orders of queries',
    tests='tests compare a few masses with reference values; the floor, the draws and the order of queries are not sampled',
    files=['pyHalo/Halos/concentration.py'],
    mechanism=[('_ConcentrationCDM.nfw_concentration', 'pyHalo/Halos/concentration.py'),
               ('_ConcentrationTurnover.nfw_concentration, suppression', 'pyHalo/Halos/concentration.py'),
               ('_ConcentrationCDM._evaluate_concentration_from_table', 'pyHalo/Halos/concentration.py'),
               ('ConcentrationPeakHeight, BinnedHaloMass', 'pyHalo/Halos/concentration.py')],
)

@contract('direct median relations', ['ConcentrationDiemerJoyce.__init__', 'ConcentrationDiemerJoyce._evaluate_concentration',
          'ConcentrationDiemerJoyce._evaluate_concentration_colossus', 'ConcentrationLudlow.__init__',
          'ConcentrationLudlow._evaluate_concentration', 'ConcentrationLudlow._evaluate_concentration_colossus', '_ConcentrationCDM.__init__',
          '_ConcentrationCDM.nfw_concentration'])
def direct(k):
    import pyHalo.Halos.concentration as c
    lib = library(k)
    cls, num = k.choice('relation', [(c.ConcentrationDiemerJoyce, 'diemer19'), (c.ConcentrationLudlow, 'ludlow16')])
    mdef = k.choice('mass definition', ['200c', '200m', None])
    m, z = k.real('m', M()), k.real('z', Z())
    n = k.size('n', 0)
    ms = k.array('ms', n, M())
    zs = k.fn('zs', Z())
    s, w = k.bool('scatter'), k.real('width', WIDTH())
    k.begin()
    kw = dict(use_interpolation_table=False, **({} if mdef is None else {'mdef': mdef}))
    f = k.run(cls, lib.cosmo, s, w, **kw)
    med = lambda m, z: lib.raw(m * lib.cosmo.h, z, CODE[num], CODE[mdef or '200c'])
    k.eq('median', k.run(f.nfw_concentration, m, z, True), floor(k, med(m, z)))
    k.same('medians of a list', k.run(f.nfw_concentration, ms, z, True), k.amap(lambda mi: floor(k, med(mi, z)), ms))
    k.same('medians with their own redshifts', k.run(f._evaluate_concentration, ms, k.amap(lambda v: zs(v), ms)), k.amap(lambda mi: med(mi, zs(mi)), ms))
    k.eq('scatter switch', f._scatter, s)
    k.eq('scatter width', f._scatter_dex, w)


@contract('scatter and floor', ['_ConcentrationCDM.nfw_concentration'])
def scatter(k):
    import pyHalo.Halos.concentration as c
    lib = library(k)
    med = k.fn('median', Real(0.2, 60))
    f = k.new(c._ConcentrationCDM)
    s, w, wz = k.bool('scatter'), k.real('width', WIDTH()), k.choice('z dependence', [0.0, 0.05])
    k.run(c._ConcentrationCDM.__init__, f, lib.cosmo, s, w, wz)
    f._evaluate_concentration = lambda m, z: med(m, z)
    m, z = k.real('m', M()), k.real('z', Z())
    n = k.size('n', 0)
    ms = k.array('ms', n, M())
    quiet = k.bool('median wanted')
    single = k.choice('one halo', [True, False])
    k.begin()
    noisy = k.And(s, k.Not(quiet))
    sig = w + wz * z
    if single:
        got = k.run(f.nfw_concentration, m, z, quiet)
        if noisy:
            k.eq('scattered', got, floor(k, k.exp(k.log(med(m, z)) + sig * k.std(0, 'Z'))))
        else:
            k.eq('median', got, floor(k, med(m, z)))
    else:
        got = k.run(f.nfw_concentration, ms, z, quiet)
        if noisy:
            k.same('scattered', got, k.amap(lambda t: floor(k, k.exp(k.log(med(t[0], z)) + sig * t[1])), k.zip(ms, k.std(0, 'Z'))))
        else:
            k.same('medians', got, k.amap(lambda mi: floor(k, med(mi, z)), ms))


@contract('power law in peak height', ['ConcentrationPeakHeight.__init__', 'ConcentrationPeakHeight._evaluate_concentration',
                                       '_zEvolutionPeakHeight.__call__', '_zEvolutionRhoCrit.__call__'])
def peak(k):
    import pyHalo.Halos.concentration as c
    lib = library(k)
    evo = k.choice('redshift evolution', ['PEAK_HEIGHT', 'RHO_CRIT'])
    c0, zeta, beta = k.real('c0', Real(1, 60)), k.real('zeta', Real(-1, 1, pool=(0.0, -0.3))), k.real('beta', Real(0, 2, pool=(0.0, 0.8)))
    m, z = k.real('m', M()), k.real('z', Z())
    n = k.size('n', 0)
    ms = k.array('ms', n, M())
    pivot = k.real('pivot', M())
    s, w = k.bool('scatter'), k.real('width', WIDTH())
    k.begin()
    f = k.run(c.ConcentrationPeakHeight, lib.cosmo, c0, zeta, beta, s, w, evo, pivot)
    k.eq('median', k.run(f.nfw_concentration, m, z, True), floor(k, power(k, lib, c0, zeta, beta, pivot, evo, m, z)))
    k.same('medians of a list', k.run(f.nfw_concentration, ms, z, True), k.amap(lambda mi: floor(k, power(k, lib, c0, zeta, beta, pivot, evo, mi, z)), ms))
    k.eq('scatter switch', f._scatter, s)
    k.eq('scatter width', f._scatter_dex, w)
    g = k.run(c.ConcentrationPeakHeight, lib.cosmo, c0, zeta, beta)
    k.eq('default pivot and evolution', k.run(g.nfw_concentration, m, z, True), floor(k, power(k, lib, c0, zeta, beta, 10 ** 8, 'PEAK_HEIGHT', m, z)))
    k.check('scatter by default', g._scatter is True and g._scatter_dex == 0.2)
    k.check('unknown redshift evolution refused', k.call(c.ConcentrationPeakHeight, lib.cosmo, c0, zeta, beta, s, w, 'NONE').raised(ValueError))


@contract('mass bins', ['BinnedHaloMass.__init__', 'BinnedHaloMass._check_in_bounds', 'BinnedHaloMass._evaluate_concentration'])
def binned(k):
    import pyHalo.Halos.concentration as c
    lib = library(k)
    evo = k.choice('redshift evolution', ['PEAK_HEIGHT', 'RHO_CRIT', None])
    nb = k.choice('bins', [1, 2, 3])
    edges = [[6.0, 7.0], [7.0, 9.0], [9.0, 10.0]][:nb]
    par = [(k.real('c%d' % i, Real(1, 60)), k.real('beta%d' % i, Real(0, 2)), k.real('zeta%d' % i, Real(-1, 1))) for i in range(nb)]
    logm = k.real('logm', Real(5, 11, pool=(6.0, 7.0, 6.5, 9.0, 10.0)))
    m = 10 ** logm
    z = k.real('z', Z())
    s, w = k.bool('scatter'), k.real('width', WIDTH())
    k.begin()
    args = (lib.cosmo, edges, [p[0] for p in par], [p[1] for p in par], [p[2] for p in par])
    f = k.run(c.BinnedHaloMass, *args, **dict(scatter=s, scatter_dex=w, **({'redshift_evolution': evo} if evo else {})))
    out = k.call(f.nfw_concentration, m, z, True)
    k.eq('scatter switch', f._scatter, s)
    k.eq('scatter width', f._scatter_dex, w)
    if k.Or(logm < 6.0, logm >= edges[-1][1]):
        k.check('outside all bins: refused', out.raised(ValueError))
        return
    want = None
    for i in reversed(range(nb)):
        v = power(k, lib, par[i][0], par[i][2], par[i][1], 10 ** 8, evo or 'RHO_CRIT', m, z)
        want = v if want is None else k.ite(logm < edges[i][1], v, want)
    k.eq('median of its bin', out.value, floor(k, want))


def turnover(k, which, log_mc):
    """a suppressed relation and its suppression"""
    import pyHalo.Halos.concentration as c
    cdm = cdm_class(k)
    s, w = k.bool('scatter'), k.real('width', WIDTH())
    if which == 'polynomial':
        a, b, i = k.real('scale', Real(0, 100, pool=(0.0, 60.0))), -k.real('power', Real(0, 2, pool=(0.0, 0.17))), k.real('inner', Real(0, 3, pool=(1.0, 0.0)))
        evo = k.choice('redshift evolution', [None, True, False])
        kw = dict(c_scale=a, c_power=b, c_power_inner=i)
        if evo is not None:
            kw['mc_suppression_redshift_evolution'] = evo
        f = k.run(c.ConcentrationWDMPolynomial, 'COSMO', cdm, log_mc, scatter=s, scatter_dex=w, **kw)

        def sup(m, z):
            r = (1 + a * (10 ** log_mc / m) ** i) ** b
            return r if evo is False else (1 + z) ** (0.026 * z - 0.04) * r
    else:
        a, b = k.real('a', Real(-3, 3)), k.real('b', Real(0.1, 3))
        f = k.run(c.ConcentrationWDMHyperbolic, 'COSMO', cdm, log_mc, a, b, scatter=s, scatter_dex=w)

        def sup(m, z):
            return 0.5 * (1 + k.tanh((k.log10(m / 10 ** log_mc) - a) / (2 * b)))
    k.check('cold dark matter relation set up with the same cosmology and scatter', f._cdm_concentration.cosmo == 'COSMO')
    k.same('scatter settings', f._cdm_concentration.kw, {'scatter': s, 'scatter_dex': w})
    return f, sup, cdm


@contract('suppressed relations', ['_ConcentrationTurnover.__init__', '_ConcentrationTurnover.nfw_concentration',
          'ConcentrationWDMPolynomial.__init__', 'ConcentrationWDMPolynomial.suppression', '_zEvolutionBose2016.__call__',
          'ConcentrationWDMHyperbolic.__init__', 'ConcentrationWDMHyperbolic.suppression'])
def suppressed(k):
    which = k.choice('model', ['polynomial', 'hyperbolic'])
    log_mc = k.real('log_mc', Real(4, 10, pool=(7.0,)))
    m, z = k.real('m', M()), k.real('z', Z())
    n = k.size('n', 0)
    ms = k.array('ms', n, M())
    k.begin()
    f, sup, cdm = turnover(k, which, log_mc)
    k.eq('suppression', k.run(f.suppression, m, z), sup(m, z))
    k.eq('concentration', k.run(f.nfw_concentration, m, z), floor(k, cdm.med(m, z) * sup(m, z)))
    k.same('concentrations of a list', k.run(f.nfw_concentration, ms, z), k.amap(lambda mi: floor(k, cdm.med(mi, z) * sup(mi, z)), ms))


@contract('suppression lies in [0,1] and falls towards low mass', ['ConcentrationWDMPolynomial.suppression', 'ConcentrationWDMHyperbolic.suppression'])
def bounded(k):
    import pyHalo.Halos.concentration as c
    which = k.choice('model', ['polynomial', 'hyperbolic'])
    x = k.real('log m over m_c', Real(-4, 6))
    dx = k.real('step', Real(0, 3, pool=(0.0,)))
    z = k.real('z', Z())
    k.begin()
    if which == 'polynomial':
        f = k.run(c.ConcentrationWDMPolynomial, 'COSMO', cdm_class(k), 7.0, k.real('scale', Real(0, 100, pool=(0.0, 60.0))),
                  -k.real('power', Real(0, 2, pool=(0.0, 0.17))), k.real('inner', Real(0, 3, pool=(1.0, 0.0))), False)
        u = k.pos('m_c over m2', 1e-4, 1e3)
        m1, m2 = 1e7 / (u * (1 + dx)), 1e7 / u
    else:
        f = k.run(c.ConcentrationWDMHyperbolic, 'COSMO', cdm_class(k), 7.0, k.real('a', Real(-3, 3)), k.real('b', Real(0.1, 3)))
        m1, m2 = 1e7 * 10 ** x, 1e7 * 10 ** (x + dx)
    s1, s2 = k.run(f.suppression, m1, z), k.run(f.suppression, m2, z)
    k.check('not negative', s1 >= 0)
    k.check('not above one', s2 <= 1)
    k.check('monotonic', s1 <= s2)


@contract('models set up one after the other are independent', ['ConcentrationWDMPolynomial.__init__', 'ConcentrationWDMHyperbolic.__init__'])
def independent(k):
    import pyHalo.Halos.concentration as c
    cls = k.choice('model', [c.ConcentrationWDMPolynomial, c.ConcentrationWDMHyperbolic])
    extra = () if cls is c.ConcentrationWDMPolynomial else (0.5, 0.5)
    a, b = cdm_class(k, 'cdm1'), cdm_class(k, 'cdm2')
    s1, s2, w1, w2 = k.bool('scatter1'), k.bool('scatter2'), k.real('width1', WIDTH()), k.real('width2', WIDTH())
    mine = {'scatter_dex': k.real('own width', WIDTH()), 'option': 1}
    before = dict(mine)
    k.begin()
    f = k.run(cls, 'C1', a, 7.0, *extra, scatter=s1, scatter_dex=w1)
    g = k.run(cls, 'C2', b, 8.0, *extra, scatter=s2, scatter_dex=w2)
    h = k.run(cls, 'C3', a, 8.0, *extra, scatter=s2, scatter_dex=w2, kwargs_cdm=mine)
    k.same('first', f._cdm_concentration.kw, {'scatter': s1, 'scatter_dex': w1})
    k.same('second', g._cdm_concentration.kw, {'scatter': s2, 'scatter_dex': w2})
    k.same('given options win', h._cdm_concentration.kw, {'scatter': s2, 'scatter_dex': before['scatter_dex'], 'option': 1})
    k.same('given options untouched', mine, before)
    k.check('classes and cosmology', type(f._cdm_concentration) is a and type(g._cdm_concentration) is b and g._cdm_concentration.cosmo == 'C2')


@contract('unphysical parameters are refused', ['ConcentrationWDMPolynomial.__init__', 'ConcentrationLudlowWDM.__init__'])
def refused(k):
    import pyHalo.Halos.concentration as c
    x = k.pos('x', 1e-6, 10)
    k.begin()
    k.check('growing suppression', k.call(c.ConcentrationWDMPolynomial, 'COSMO', cdm_class(k), 7.0, 60.0, x).raised(Exception))
    k.check('negative scale', k.call(c.ConcentrationWDMPolynomial, 'COSMO', cdm_class(k), 7.0, -x).raised(Exception))
    k.check('growing transfer function', k.call(c.ConcentrationLudlowWDM, 'COSMO', 7.0, x).raised(Exception))
    k.check('flat limits accepted', k.call(c.ConcentrationWDMPolynomial, 'COSMO', cdm_class(k), 7.0, 0.0, 0.0).ok and
            k.call(c.ConcentrationLudlowWDM, k.obj(h=0.7), 7.0, 0.0).ok)


@contract('tabulated suppression', ['ConcentrationLudlowWDM.__init__', 'ConcentrationLudlowWDM._make_in_bounds', 'ConcentrationLudlowWDM.suppression_fit',
                                    'ConcentrationLudlowWDM.suppression', 'ConcentrationLudlowWDM.nfw_concentration'])
def ludlow_wdm(k):
    import pyHalo.Halos.concentration as c
    lib = library(k)
    log_mc, slope = k.real('log_mc', Real(4, 10, pool=(5.0, 6.0, 7.0, 8.0, 9.0))), -k.real('slope', Real(0, 6, pool=(0.0, 1.0, 2.7, 4.0, 5.0)))
    m, z = k.real('m', M()), k.real('z', Real(0, 8, pool=(0.0, 0.5, 4.0, 5.0)))
    n = k.size('n', 0)
    ms = k.array('ms', n, M())
    s, w = k.bool('scatter'), k.real('width', WIDTH())
    mdef = k.choice('mass definition', ['200c', '200m'])
    fa, fb = k.fn('a', Real(-0.1, 0.6)), k.fn('b', Real(0.4, 1.1))
    med = k.fn('cdm', Real(1.2, 60))
    k.begin()
    f = k.run(c.ConcentrationLudlowWDM, lib.cosmo, log_mc, slope, s, w, mdef)
    cdm = f._cdm_concentration
    k.check('relation for cold dark matter', type(cdm) is c.ConcentrationLudlow and cdm._cosmo is lib.cosmo and cdm._mdef == mdef)
    k.eq('scatter switch', cdm._scatter, s)
    k.eq('scatter width', cdm._scatter_dex, w)
    f.interp_a, f.interp_b = lambda x: fa(*x), lambda x: fb(*x)
    cdm.nfw_concentration = lambda m, z: k.amap(lambda mi: med(mi, z), m) if k.is_seq(m) else med(m, z)
    x = (k.min(k.max(-slope, 1.0), 4.0), k.min(k.max(log_mc, 6.0), 8.0), k.min(k.max(z, 0.0), 4.0))

    def sup(m):
        return 0.5 * (1 + k.tanh((k.log10(m / 10 ** log_mc) - fa(*x)) / (2 * fb(*x))))
    k.eq('suppression', k.run(f.suppression, m, z), sup(m))
    k.eq('concentration', k.run(f.nfw_concentration, m, z), floor(k, med(m, z) * sup(m)))
    k.same('concentrations of a list', k.run(f.nfw_concentration, ms, z), k.amap(lambda mi: floor(k, med(mi, z) * sup(mi)), ms))


@contract('published table of the suppression', ['ConcentrationLudlowWDM.suppression_fit'], sym=False, seeds=40)
def ludlow_table(k):
    import pyHalo.Halos.concentration as c
    f = c.ConcentrationLudlowWDM(k.obj(h=0.7), 7.0, -2.0)
    i, j, l = k.int('i', 0, 4), k.int('j', 0, 2), k.int('l', 0, 4)
    k.begin()
    a, b = k.run(f.suppression_fit, [6.0, 7.0, 8.0][j], -[1.0, 2.0, 2.7, 3.2, 4.0][i], [0.0, 1.0, 2.0, 3.0, 4.0][l])
    n = 15 * i + 5 * j + l
    k.eq('a', float(a), float(f.values_a[n]))
    k.eq('b', float(b), float(f.values_b[n]))
    k.check('published extremes', f.values_a[0] == 0.554 and f.values_a[-1] == 0.01 and f.values_b[0] == 0.805 and f.values_b[-1] == 0.665 and
            abs(f.values_a.sum() - 22.256) < 1e-9 and abs(f.values_b.sum() - 46.295) < 1e-9)
    k.check('falls with steeper cutoffs', 0.3 < float(b) < 1.1 and -0.1 < float(a) < 0.6)


def exact(k):
    return lambda m, z: 20.0 * (m / 1e8) ** (-0.08 + 0.004 * np.log10(m / 1e8)) * (1 + z) ** (-0.7 - 0.02 * np.log10(m / 1e8))


@contract('tabulated medians follow the exact relation, whatever was asked before', ['_ConcentrationCDM._evaluate_concentration_from_table',
          '_ConcentrationCDM._build_table', 'ConcentrationDiemerJoyce._evaluate_concentration', 'ConcentrationLudlow._evaluate_concentration'],
          sym=False, seeds=60)
def table(k):
    import pyHalo.Halos.concentration as c
    ex = exact(k)
    k.override(c.concentration, lambda m, mdef=None, model=None, z=None: ex(m / 0.7, z) * (1.0 if model == 'diemer19' else 1.5))
    cls, amp = k.choice('relation', [(c.ConcentrationDiemerJoyce, 1.0), (c.ConcentrationLudlow, 1.5)])
    wide = Real(2, 15, pool=(5.0, 11.5, 5.5, 12.0, 8.0))
    far = Real(0, 20, pool=(0.0, 0.5, 10.2, 3.0, 11.0))
    qs = []
    for i in range(4):
        if k.choice('single%d' % i, [True, False]):
            qs.append((10 ** k.real('m%d' % i, wide), k.real('z%d' % i, far)))
        else:
            n = k.size('n%d' % i, 1)
            qs.append((10 ** np.array(k.array('ms%d' % i, n, wide)), k.real('zz%d' % i, far)))
    k.begin()
    f = k.run(cls, k.obj(h=0.7), False)
    for i, (m, z) in enumerate(qs + qs[:1]):
        got = k.run(f.nfw_concentration, m, z)
        want = np.maximum(amp * ex(m, z), 1.2)
        k.check('query %d' % i, np.all(np.abs(np.asarray(got) / want - 1) < 2e-3) and np.shape(got) == np.shape(m))
        x, y, tab = f._table
        xs, y0 = np.log10(np.atleast_1d(m)), np.log10(1 + z)
        k.check('table covers the query', x[0] <= xs.min() and x[-1] >= xs.max() and y[0] <= y0 <= y[-1])
        t = []
        for xi in xs:
            a = min(max(np.searchsorted(x, xi, side='right') - 1, 0), len(x) - 2)
            b = min(max(np.searchsorted(y, y0, side='right') - 1, 0), len(y) - 2)
            u, v = (xi - x[a]) / (x[a + 1] - x[a]), (y0 - y[b]) / (y[b + 1] - y[b])
            t.append(10 ** ((tab[a, b] * (1 - v) + tab[a, b + 1] * v) * (1 - u) + (tab[a + 1, b] * (1 - v) + tab[a + 1, b + 1] * v) * u))
        if np.ndim(m) == 0:
            k.same('bilinear', np.atleast_1d(got), np.maximum(np.array(t), 1.2))
    nodes = np.array([[np.log10(amp * ex(10 ** xi, 10 ** yi - 1)) for yi in y[::7]] for xi in x[::5]])
    k.check('exact nodes', np.allclose(tab[::5, ::7], nodes, rtol=0, atol=1e-12))
    k.check('resolution', x[1] - x[0] < 0.1 and y[1] - y[0] < 0.03 and np.allclose(np.diff(x), x[1] - x[0]) and np.allclose(np.diff(y), y[1] - y[0]))


@contract('interpolation inside the table', ['_ConcentrationCDM._evaluate_concentration_from_table'])
def bilinear(k):
    import pyHalo.Halos.concentration as c
    T = k.fn('table', Real(0.1, 2))

    class Table(object):
        def __getitem__(self, ij):
            return T(ij[0], ij[1])
    na, nb = k.choice('nodes', [(4, 5), (9, 4)])
    x0, dx, y0, dy = k.real('x0', Real(3, 6)), k.real('dx', Real(0.05, 1)), k.real('y0', Real(0, 0.1)), k.real('dy', Real(0.01, 0.2))
    i, j = k.choice('cell', [(0, 0), (2, 1), (na - 2, 2), (0, nb - 2), (na - 2, nb - 2)])
    s, t = k.real('s', Real(1e-6, 1 - 1e-6)), k.real('t', Real(1e-6, 1 - 1e-6))
    x, y = x0 + dx * (i + s), y0 + dy * (j + t)
    f = k.new(c.ConcentrationDiemerJoyce, _table=(k.arr([x0 + dx * a for a in range(na)]), k.arr([y0 + dy * a for a in range(nb)]), Table()))
    k.begin()
    got = k.run(f._evaluate_concentration_from_table, 10 ** x, 10 ** y - 1)
    k.eq('bilinear in the cell', got, 10 ** ((1 - s) * ((1 - t) * T(i, j) + t * T(i, j + 1)) + s * ((1 - t) * T(i + 1, j) + t * T(i + 1, j + 1))))
