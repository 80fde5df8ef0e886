"""line-of-sight halo mass function from the background cosmology"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen

PROPERTY = dict(
    title='Field halo abundance is the fitted background mass function times slice volume',
    statement="""In every slice the field halo mass function is the power law fitted, about the pivot mass, to the background
    (Sheth-Tormen) comoving abundance between the lowest and highest mass at that redshift in units free of h: amplitude times the
    requested overall factor and the comoving volume of the slice, slope plus the requested offset with the amplitude at the
    pivot unchanged by it. Warm and mixed dark matter use the same function with their own suppression parameters.
    Delta-function populations get the requested mass fraction of (today's dark matter fraction of) the critical density at that redshift.""",
    over=['inputs'],
    forall='every redshift, slice thickness, pivot, slope offset, amplitude and background mass function',
    tests='tests compare against the same formula at one redshift and need the lensing library',
    files=['pyHalo/Rendering/MassFunctions/density_peaks.py', 'pyHalo/Rendering/MassFunctions/delta_function.py'],
    mechanism=[('ShethTormen, ShethTormenTurnover, ShethTormenMixedWDM .from_redshift, evaluate_mass_function',
                'pyHalo/Rendering/MassFunctions/density_peaks.py'),
               ('DeltaFunction.from_redshift', 'pyHalo/Rendering/MassFunctions/delta_function.py')],
)


def setup(k, **extra):
    import pyHalo.Rendering.MassFunctions.density_peaks as dp
    f = k.fn('background mass function', posgen(k), impl=lambda m, z: 0.02 * (m / 1e8) ** -0.9 * (1 + 0.1 * z) * (1 + 0.01 * np.sin(np.log(m))))
    seen = []

    def mass_function(m, z, q_in='M', q_out='f', mdef='fof', model='', **kw):
        seen.append((q_out, model))
        return k.amap(lambda x: f(x, z), m) if k.is_seq(m) else f(m, z)
    k.override(dp.massFunction, mass_function)
    h = k.real('h', Real(0.5, 1.0, pool=(0.7,)))
    vol = k.fn('comoving volume', posgen(k))
    geo = k.obj(cosmo=k.obj(h=h, colossus='COLOSSUS', **extra), volume_element_comoving=vol)
    return f, h, vol, geo, seen


@contract('mass function from redshift', ['evaluate_mass_function', 'ShethTormen.from_redshift', 'ShethTormenTurnover.from_redshift',
                                          'ShethTormenMixedWDM.from_redshift'])
def from_redshift(k):
    import pyHalo.Rendering.MassFunctions.density_peaks as dp
    f, h, vol, geo, seen = setup(k)
    z, dz = k.real('z', Real(0.01, 3, pool=(0.5,))), k.real('dz', Real(0.01, 0.1, pool=(0.02,)))
    lo = k.real('log_mlow', Real(5, 8, pool=(6.0,)))
    hi = lo + k.real('dlog', Real(0.5, 4, pool=(4.0,)))
    piv = k.pos('m_pivot', 1e7, 1e9)
    kw = dict(log_mlow=lo, log_mhigh=hi, m_pivot=piv, LOS_normalization=k.real('factor', Real(0, 3, pool=(1.0,))),
              delta_power_law_index=k.real('offset', Real(-0.3, 0.3, pool=(0.0,))), draw_poisson=k.bool('poisson'))
    name = k.choice('kind', ['ShethTormen', 'ShethTormenTurnover', 'ShethTormenMixedWDM'])
    if name != 'ShethTormen':
        kw.update(log_mc=k.real('log_mc', Real(4, 9)), a_wdm=k.real('a', Real(0, 4)), b_wdm=k.real('b', Real(0, 3)), c_wdm=k.real('c', Real(-3, 0)))
    if name == 'ShethTormenMixedWDM':
        kw.update(mixed_DM_frac=k.real('frac', Real(0, 1)))
    k.begin()
    g = k.run(getattr(dp, name).from_redshift, z, dz, geo, kw)
    ms = k.run(np.logspace, lo, hi, 10)
    # comoving number per mass, without h: (dn/dlnM)(M h) / M * h^3
    dn = k.amap(lambda m: f(m * h, z) / m * h ** 3, ms)
    c = k.run(np.polyfit, k.amap(lambda m: k.log10(m / piv), ms), k.amap(lambda v: k.log10(v), dn), 1)
    k.eq('slope', g._index, c[0] + kw['delta_power_law_index'])
    k.eq('amplitude at the pivot', g._normalization * piv ** g._index, kw['LOS_normalization'] * 10 ** c[1] * vol(z, dz))
    k.eq('lowest mass', g._logmlow, lo)
    k.eq('highest mass', g._logmhigh, hi)
    k.check('Poisson switch', g._draw_poisson is kw['draw_poisson'])
    k.check('the kind of mass function', type(g) is getattr(dp, name))
    k.check('differential abundance of the Sheth-Tormen model', all(q == ('dndlnM', 'sheth99') for q in seen) and len(seen) > 0)
    if name != 'ShethTormen':
        par = g._kwargs_mass_function
        for a, b in (('log_mc', 'log_mc'), ('a_mfunc_break', 'a_wdm'), ('b_mfunc_break', 'b_wdm'), ('c_mfunc_break', 'c_wdm')):
            k.eq('suppression parameter ' + b, par[a], kw[b])
    if name == 'ShethTormenMixedWDM':
        k.eq('cold fraction', g._kwargs_mass_function['mixed_DM_frac'], kw['mixed_DM_frac'])


@contract('delta function from redshift', ['DeltaFunction.from_redshift'])
def delta(k):
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    rho = k.fn('critical density', posgen(k))
    odm = k.fn('Odm', Real(0.1, 0.4))
    conv = k.pos('unit', 1e10, 1e12)
    ast = k.obj(Odm=odm, critical_density=lambda z: k.obj(value=rho(z)))
    f, h, vol, geo, seen = setup(k, astropy=ast, density_to_MsunperMpc=conv)
    z, dz = k.real('z', Real(0.01, 3, pool=(0.5,))), k.real('dz', Real(0.01, 0.1, pool=(0.02,)))
    kw = dict(LOS_normalization=k.real('factor', Real(0, 3)), mass_fraction=k.real('fraction', Real(0, 1)), mass=k.pos('mass', 1e4, 1e8),
              draw_poisson=k.bool('poisson'))
    k.begin()
    g = k.run(DeltaFunction.from_redshift, z, dz, geo, kw)
    k.eq('mean number', g.n_mean * kw['mass'], kw['LOS_normalization'] * kw['mass_fraction'] * odm(0) * rho(z) * conv * vol(z, dz))
    k.eq('mass', g.mass, kw['mass'])
    k.check('Poisson switch', g.draw_poisson is kw['draw_poisson'])
