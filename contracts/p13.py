"""mass functions: sampling"""
from engine.api import contract
from engine.kit import Real

PROPERTY = dict(
    title='Sampled halo masses follow the mass function and stay inside its range',
    statement="""The number of halos drawn is a Poisson draw with the mean number of the unsuppressed mass function (or that mean
    rounded, without Poisson noise), and each mass is the quantile of the mass function at an independent uniform number, so every
    mass lies between the lowest and the highest mass. With a turnover each of these masses is kept, unchanged and in
    order, exactly when an independent uniform number is below the suppression at its mass. Delta-function populations have
    the one mass and mean number density times volume over mass; Gaussian ones have normal log10 masses.""",
    over=['inputs', 'random outcomes'],
    forall='every slope, mass range, normalization, turnover and every outcome of the random numbers',
    tests='histograms of one sample cannot tell a biased sampler from noise',
    files=['pyHalo/Rendering/MassFunctions/mass_function_base.py', 'pyHalo/Rendering/MassFunctions/delta_function.py',
           'pyHalo/Rendering/MassFunctions/gaussian.py'],
    mechanism=[('_PowerLawBase.draw, _PowerLawTurnoverBase.draw, WDMPowerLaw.draw', 'pyHalo/Rendering/MassFunctions/mass_function_base.py'),
               ('DeltaFunction', 'pyHalo/Rendering/MassFunctions/delta_function.py'),
               ('Gaussian', 'pyHalo/Rendering/MassFunctions/gaussian.py')],
)


def base(k, poisson):
    """a mass function with a symbolic mean number (what the constructor puts there is the subject of the moments property)"""
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    lo = k.real('log_mlow', Real(4, 9, pool=(6.0, 7.0)))
    hi = lo + k.real('dlog', Real(0.1, 6, pool=(1.0, 4.0)))
    p = k.real('slope plus one', Real(-2.5, 1.5, pool=(-0.9, -1.0, 0.0, -0.82)))
    idx = p - 1
    f = k.new(CDMPowerLaw, _logmlow=lo, _logmhigh=hi, _index=idx, _draw_poisson=poisson, _normalization=k.pos('norm'),
              n_mean=k.real('n_mean', Real(0, 6, pool=(0.0, 3.0))))
    return f, lo, hi, idx


def quantile(k, u, lo, hi, idx):
    a, b = 10 ** lo, 10 ** hi
    if k.Eq(idx, -1):
        return a * k.exp(k.log(b / a) * u)
    p = 1 + idx
    return (u * (b ** p - a ** p) + a ** p) ** (1 / p)


def expected_number(k, poisson, n_mean):
    if poisson:
        k.eq('mean of the Poisson draw', k.draws[0].params[0], n_mean)
        return k.std(0, 'poisson')
    return k.round(n_mean)


@contract('power law sampling', ['_PowerLawBase.draw'], timeout=8.0)
def power_law(k):
    poisson = k.choice('poisson', [True, False])
    f, lo, hi, idx = base(k, poisson)
    k.begin()
    m = k.run(f.draw)
    n = expected_number(k, poisson, f.n_mean)
    u = k.std(1 if poisson else 0, 'U')
    k.eq('number of halos', k.len(u), n)
    k.same('masses', m, k.amap(lambda x: quantile(k, x, lo, hi, idx), u))


@contract('masses lie inside the range', ['_PowerLawBase.draw'], timeout=8.0)
def in_range(k):
    f, lo, hi, idx = base(k, True)
    sign = k.choice('slope above, at or below -1', [1, 0, -1])
    k.assume(idx + 1 > 0 if sign > 0 else idx + 1 < 0 if sign < 0 else k.Eq(idx + 1, 0))
    k.begin()
    m = k.run(f.draw)
    tol = 0.0 if k.sym else 1e-9
    k.check('not below the lowest mass', k.forall(lambda x: x >= 10 ** lo * (1 - tol), m))
    k.check('not above the highest mass', k.forall(lambda x: x <= 10 ** hi * (1 + tol), m))


@contract('suppressed sampling', ['_PowerLawTurnoverBase.draw', 'WDMPowerLaw.draw'], timeout=8.0)
def suppressed(k):
    from pyHalo.Rendering.MassFunctions.mass_function_base import WDMPowerLaw, MixedWDMPowerLaw
    f, lo, hi, idx = base(k, True)
    n = k.size('n', 0)
    ms = k.array('drawn', n, Real(1e5, 1e10, pool=(1e7,)))
    drawn = k.obj(draw=lambda: ms)
    kw = dict(log_mc=k.real('log_mc', Real(4, 10, pool=(7.0,))), a_mfunc_break=k.real('a', Real(0, 10, pool=(1.0, 2.3))),
              b_mfunc_break=k.real('b', Real(0, 4, pool=(1.0, 0.8))), c_mfunc_break=k.real('c', Real(-4, 0, pool=(-1.0,))))
    cls = k.choice('cls', [WDMPowerLaw, MixedWDMPowerLaw])
    if cls is MixedWDMPowerLaw:
        kw['mixed_DM_frac'] = k.real('cold fraction', Real(0, 1, pool=(0.0, 1.0)))
    w = k.new(cls, _mass_function_unbroken=drawn, _kwargs_mass_function=kw, _logmlow=lo, _logmhigh=hi, _index=idx)

    def supp(x):
        r = (1 + kw['a_mfunc_break'] * (10 ** kw['log_mc'] / x) ** kw['b_mfunc_break']) ** kw['c_mfunc_break']
        return (kw['mixed_DM_frac'] + (1 - kw['mixed_DM_frac']) * k.sqrt(r)) ** 2 if 'mixed_DM_frac' in kw else r
    k.begin()
    m = k.run(w.draw)
    if k.Eq(n, 0):
        k.eq('nothing to keep', k.len(m), 0)
        return
    u = k.std(0, 'U')
    k.eq('one uniform number per mass', k.len(u), n)
    k.same('kept masses', m, k.map(lambda p: p[0], k.filter(lambda p: p[1] < supp(p[0]), k.zip(ms, u))))


@contract('delta function', ['DeltaFunction.__init__', 'DeltaFunction.draw'])
def delta(k):
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    mass, rho = k.pos('mass', 1e5, 1e8), k.pos('rho', 1e7, 1e9)
    vol = k.pos('volume', 1e-3, 0.3)
    poisson = k.choice('poisson', [True, False])
    k.begin()
    f = k.run(DeltaFunction, mass, vol, rho, poisson)
    if not k.sym:
        k.assume(rho * vol / mass < 50)
    k.eq('mean number', f.n_mean, rho * vol / mass)
    m = k.run(f.draw)
    n = k.len(m)
    if poisson:
        k.eq('mean of the Poisson draw', k.draws[0].params[0], rho * vol / mass)
    k.eq('number of objects', n, k.std(0, 'poisson') if poisson else k.round(rho * vol / mass))
    k.check('masses', k.forall(lambda x: k.Eq(x, mass), m))


@contract('Gaussian', ['Gaussian.__init__', 'Gaussian.draw'])
def gaussian(k):
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    n = k.real('n', Real(0, 6, pool=(0.0, 3.0)))
    mean, sig = k.real('mean', Real(4, 8)), k.real('sigma', Real(0, 1))
    poisson = k.choice('poisson', [True, False])
    k.begin()
    f = k.run(Gaussian, n, mean, sig, poisson)
    k.eq('mean number', f.n_mean, n)
    k.eq('expected mass of one object', f.first_moment, 10 ** (mean + sig ** 2 * k.log(10) / 2))
    m = k.run(f.draw)
    if poisson:
        k.eq('mean of the Poisson draw', k.draws[0].params[0], n)
    cnt = k.std(0, 'poisson') if poisson else k.round(n)
    k.eq('number of objects', k.len(m), cnt)
    if cnt > 0:
        z = k.std(1 if poisson else 0, 'Z')
        k.same('masses', m, k.amap(lambda x: 10 ** (mean + sig * x), z))
