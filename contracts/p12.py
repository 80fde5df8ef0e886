"""mass functions: moments and suppression"""
from engine.api import contract
from engine.kit import Real

PROPERTY = dict(
    title='Mean halo number and mass are the exact moments of the mass function',
    statement="""For every slope, normalization and mass range, the expected number of halos and the expected total mass are the
    zeroth and first moments of the differential mass function between the lowest and highest mass, including the slopes
    where the integral is logarithmic, and both are zero if the range is empty. With a turnover the same holds for the
    suppressed mass function, whose suppression is (1+a(m_c/m)^b)^c (its square-root blend with the cold fraction for mixed
    dark matter), lies between 0 and 1 for physical parameters, and never rises towards lower mass. Evaluating the mass
    function gives the integrand.""",
    over=['inputs'],
    forall='all slopes (also -1 and -2), normalizations, mass ranges (also empty ones) and turnover parameters',
    tests='tests compare a few parameter choices against quadrature',
    files=['pyHalo/Rendering/MassFunctions/mass_function_base.py', 'pyHalo/Rendering/MassFunctions/util.py'],
    mechanism=[('CDMPowerLaw, WDMPowerLaw, MixedWDMPowerLaw', 'pyHalo/Rendering/MassFunctions/mass_function_base.py'),
               ('integrate_power_law_analytic, integrate_power_law_quad', 'pyHalo/Rendering/MassFunctions/util.py')],
)


def setup(k):
    lo = k.real('log_mlow', Real(4, 9, pool=(6.0, 7.0)))
    hi = lo + k.real('dlog', Real(0.001, 6, pool=(1.0, 4.0, 0.002)))
    idx = k.real('slope', Real(-3.5, 0.5, pool=(-1.9, -2.0, -1.0, -1.82)))
    norm = k.real('norm', Real(0, None, lo_open=True) if k.sym else Real(1e3, 1e18, log=True))
    return lo, hi, idx, norm


def moment(k, norm, lo, hi, n, idx):
    p = n + 1 + idx
    a, b = 10 ** lo, 10 ** hi
    if k.Eq(p, 0):
        return norm * k.log(b / a)
    return norm * (b ** p - a ** p) / p


@contract('power law moments', ['_PowerLawBase.__init__', 'integrate_power_law_analytic', '_PowerLawBase.evaluate', 'CDMPowerLaw.__init__'])
def moments(k):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    lo, hi, idx, norm = setup(k)
    m = k.pos('m', 1e5, 1e11)
    k.begin()
    f = k.run(CDMPowerLaw, lo, hi, idx, k.bool('poisson'), norm)
    k.eq('mean number', f.n_mean, moment(k, norm, lo, hi, 0, idx))
    k.eq('mean total mass', f.first_moment, moment(k, norm, lo, hi, 1, idx))
    k.eq('differential mass function', k.run(f.evaluate, m), norm * m ** idx)


@contract('an empty mass range holds nothing', ['_PowerLawBase.__init__'])
def empty(k):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    lo = k.real('log_mlow', Real(4, 9, pool=(6.0, 7.0)))
    hi = lo - k.real('gap', Real(0, 3, pool=(0.0, 1.0)))
    idx = k.real('slope', Real(-3.5, 0.5, pool=(-1.9, -2.0, -1.0)))
    k.begin()
    f = k.run(CDMPowerLaw, lo, hi, idx, True, k.pos('norm'))
    k.eq('mean number', f.n_mean, 0)
    k.eq('mean total mass', f.first_moment, 0)


def turnover(k, kw, m):
    r = (1 + kw['a'] * (10 ** kw['log_mc'] / m) ** kw['b']) ** kw['c']
    if 'frac' in kw:
        return (kw['frac'] + (1 - kw['frac']) * k.sqrt(r)) ** 2
    return r


def wdm(k, mixed, lo, hi, idx, norm):
    from pyHalo.Rendering.MassFunctions.mass_function_base import WDMPowerLaw, MixedWDMPowerLaw
    kw = dict(log_mc=k.real('log_mc', Real(4, 10, pool=(7.0,))), a=k.real('a', Real(0, 10, lo_open=True, pool=(1.0, 2.3))),
              b=k.real('b', Real(0, 4, lo_open=True, pool=(1.0, 0.8))), c=k.real('c', Real(-4, 0, hi_open=True, pool=(-1.0, -0.99))))
    args = [lo, hi, idx, k.bool('poisson'), norm, kw['log_mc'], kw['a'], kw['b'], kw['c']]
    if mixed:
        kw['frac'] = k.real('cold fraction', Real(0, 1, pool=(0.0, 1.0, 0.5)))
        args.append(kw['frac'])
    return k.run(MixedWDMPowerLaw if mixed else WDMPowerLaw, *args), kw


@contract('moments of a suppressed mass function', ['_PowerLawTurnoverBase.__init__', 'integrate_power_law_quad', 'WDMPowerLaw.__init__',
          'WDMPowerLaw._turnover', 'MixedWDMPowerLaw.__init__', 'MixedWDMPowerLaw._turnover', '_PowerLawTurnoverBase.evaluate',
          '_PowerLawTurnoverBase.turnover'])
def suppressed(k):
    lo, hi, idx, norm = setup(k)
    m = k.pos('m', 1e5, 1e11)
    mixed = k.choice('mixed', [False, True])
    k.begin()
    f, kw = wdm(k, mixed, lo, hi, idx, norm)
    k.eq('mean number', f.n_mean, k.quad(lambda x: norm * x ** idx * turnover(k, kw, x), 10 ** lo, 10 ** hi))
    k.eq('mean total mass', f.first_moment, k.quad(lambda x: norm * x ** (1 + idx) * turnover(k, kw, x), 10 ** lo, 10 ** hi))
    k.eq('suppression', k.run(f.turnover, m), turnover(k, kw, m))
    k.eq('differential mass function', k.run(f.evaluate, m), norm * m ** idx * turnover(k, kw, m))


@contract('suppression lies in [0,1] and falls towards low mass', ['WDMPowerLaw._turnover', 'MixedWDMPowerLaw._turnover'])
def bounded(k):
    lo, hi, idx, norm = 6.0, 10.0, -1.9, 1.0
    s2 = k.pos('m_c over m2', 1e-4, 1e3)
    s1 = s2 * (1 + k.pos('dm', 0.01, 10.0))
    mixed = k.choice('mixed', [False, True])
    k.begin()
    f, kw = wdm(k, mixed, lo, hi, idx, norm)
    m1, m2 = 10 ** kw['log_mc'] / s1, 10 ** kw['log_mc'] / s2        # any two masses m1 < m2
    t1, t2 = k.run(f.turnover, m1), k.run(f.turnover, m2)
    k.check('not negative', t1 >= 0)
    k.check('not above one', t1 <= 1)
    k.check('monotonic', t1 <= t2)


@contract('an empty mass range holds nothing, with a turnover', ['_PowerLawTurnoverBase.__init__'])
def empty_wdm(k):
    lo = k.real('log_mlow', Real(4, 9, pool=(6.0, 7.0)))
    hi = lo - k.real('gap', Real(0, 3, pool=(0.0, 1.0)))
    idx = k.real('slope', Real(-3.5, 0.5, pool=(-1.9, -2.0, -1.0)))
    k.begin()
    f, kw = wdm(k, k.choice('mixed', [False, True]), lo, hi, idx, k.pos('norm'))
    k.eq('mean number', f.n_mean, 0)
    k.eq('mean total mass', f.first_moment, 0)
