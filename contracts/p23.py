"""truncation radii and the mass that stays bound"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen

PROPERTY = dict(
    title='Truncation: every model gives its radius; stripped halos keep their bound mass',
    statement="""Each truncation model returns the radius its definition gives, in physical kpc, for every halo mass, concentration,
    redshift and position: the splashback radius or the radius of a fixed overdensity for field halos; the Roche, mean-density,
    constant or scale-radius scalings; and for tidally stripped subhalos the radius at which an NFW profile, truncated and lowered
    in normalization according to the tidal track, contains exactly the predicted bound mass. The bound mass is the infall mass
    times the fraction the tidal model predicts for that halo's concentration, infall time (or redshift) and host concentration;
    it never exceeds the infall mass when the fraction is drawn from a distribution, and the lowered normalization, between 0 and
    1, is handed to the halo exactly once each time its radius is computed.""",
    over=['inputs', 'configurations'],
    forall='all masses, concentrations, redshifts, positions, infall times, hosts and draws',
    tests='tests compare single halos with stored numbers; they do not vary the inputs or look at the normalization',
    files=['pyHalo/Halos/tidal_truncation.py', 'pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py',
           'pyHalo/truncation_models.py', 'pyHalo/Halos/tnfw_halo_util.py'],
    mechanism=[('truncation_radius_halo of each model', 'pyHalo/Halos/tidal_truncation.py'),
               ('compute_r_te_and_f_t', 'pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py'),
               ('tau_mf_interpolation', 'pyHalo/Halos/tnfw_halo_util.py')],
)

M = lambda: Real(1e4, 1e12, pool=(1e6, 1e7, 1e8), log=True)
C = lambda: Real(1.2, 400, pool=(2.0, 10.0, 16.0), log=True)
Z = lambda: Real(0, 10, pool=(0.0, 0.5, 2.0))
DEPTHS = (200.0, 50.0)


def num(b):
    return 1.0 if b is True else 0.0 if b is False else b


def lenscosmo(k):
    rs, r200, rn = k.fn('rs', posgen(k)), k.fn('r200', posgen(k)), k.fn('r_N', posgen(k))
    h, om = k.real('h', Real(0.5, 0.9, pool=(0.7,))), k.real('Om0', Real(0.1, 0.6, pool=(0.3,)))

    def params(m, c, z, psuedo_nfw=False):
        p = num(psuedo_nfw)
        return 'RHO', rs(m, c, z, p), r200(m, c, z, p)
    lc = k.obj(cosmo=k.obj(h=h, astropy=k.obj(Om0=om)), z_lens=k.real('z_lens', Real(0.05, 2, pool=(0.1, 0.2, 0.5, 1.2, 1.5))),
               NFW_params_physical=params, rN_M=lambda m, z, N=200: rn(m, z, N))
    return k.obj(lc=lc, rs=rs, r200=r200, rn=rn, h=h, om=om)


def halo(k, L):
    """a halo; what it is rescaled by is kept in .factors"""
    m, c, z = k.real('m', M()), k.real('c', C()), k.real('z_eval', Z())
    factors = []
    sub = k.bool('subhalo')
    h = k.obj(mass=m, c=c, z_eval=z, r3d=k.pos('r3d', 0.1, 500), time_since_infall=k.real('t_infall', Real(0, 13, pool=(0.0, 4.0))),
              z_infall=k.real('z_infall', Real(0, 15, pool=(0.5, 3.0))), rescale_normalization=lambda f: factors.append(f),
              nfw_params=('RHO', k.pos('own rs', 0.01, 100), k.pos('own r200', 1, 1000)),
              is_subhalo=sub, z=k.ite(sub, L.lc.z_lens, z), x=k.real('x', Real(-3, 3)), y=k.real('y', Real(-3, 3)),
              bound_mass=k.pos('bound', 1e4, 1e9), rescale_norm=k.real('norm so far', Real(0, 1, lo_open=True)), mdef='TNFW',
              unique_tag=k.real('tag', Real(0, 1)), lens_cosmo=L.lc, fixed_position=False)
    h.factors = factors
    return h


@contract('field halos', ['TruncationSplashBack.__init__', 'TruncationSplashBack.truncation_radius_halo', 'TruncationSplashBack.truncation_radius',
                          'TruncationRN.__init__', 'TruncationRN.truncation_radius_halo', 'TruncationRN.truncation_radius'])
def field(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    h = halo(k, L)
    nu, sp = k.fn('peak_height', Real(0.2, 5)), k.fn('splashback', Real(0.5, 3))
    k.override(t.peaks.peakHeight, lambda m, z: nu(m, z))
    k.override(t.splashback.splashbackModel, lambda q, nu200m=None, z=None, rspdef=None:
               (sp(nu200m, z, 1.0 if q == 'RspR200m' and rspdef == 'sp-apr-mn' else 0.0), True))
    N = k.real('N', Real(10, 300, pool=(50, 200)))
    k.begin()
    f = k.run(t.TruncationSplashBack, L.lc)
    want = sp(nu(h.mass * L.h, h.z_eval), h.z_eval, 1.0) * L.rn(h.mass * L.h, h.z_eval, 200.0) / L.om ** (1. / 3) * 1000
    k.eq('splashback radius in kpc', k.run(f.truncation_radius_halo, h), want)
    k.eq('splashback radius from mass and redshift', k.run(f.truncation_radius, h.mass, h.z_eval), want)
    g = k.run(t.TruncationRN, L.lc, N)
    k.eq('radius of the overdensity', k.run(g.truncation_radius_halo, h), L.rn(h.mass * L.h, h.z_eval, N) * 1000)
    k.eq('from mass and redshift', k.run(g.truncation_radius, h.mass, h.z_eval), L.rn(h.mass * L.h, h.z_eval, N) * 1000)
    d = k.run(t.TruncationRN, L.lc)
    k.eq('default overdensity', k.run(d.truncation_radius_halo, h), L.rn(h.mass * L.h, h.z_eval, 50) * 1000)
    k.check('not rescaled', len(h.factors) == 0)


@contract('Roche radius', ['TruncationRoche.__init__', 'TruncationRoche.truncation_radius_halo', 'TruncationRoche.truncation_radius'])
def roche(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    h = halo(k, L)
    a, p, q = k.pos('norm', 0.1, 10), k.real('m_power', Real(0, 1, pool=(0.33,))), k.real('r_power', Real(0, 1.5, pool=(0.5,)))
    k.begin()
    f = k.run(t.TruncationRoche, L.lc, a, p, q)
    want = k.round(a * (h.mass / 10 ** 7) ** p * (h.r3d / 50) ** q, 3)
    k.eq('of a halo', k.run(f.truncation_radius_halo, h), want)
    k.eq('of a mass and position', k.run(f.truncation_radius, h.mass, h.r3d), want)
    g = k.run(t.TruncationRoche)
    k.eq('default calibration', k.run(g.truncation_radius_halo, h), k.round(1.4 * (h.mass / 10 ** 7) ** (1. / 3) * (h.r3d / 50) ** (2. / 3), 3))


@contract('mean density', ['TruncateMeanDensity.__init__', 'TruncateMeanDensity.truncation_radius_halo', 'TruncateMeanDensity.truncation_radius'])
def mean_density(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    h = halo(k, L)
    med = k.fn('median', Real(1.2, 60))
    k.override(t.ConcentrationDiemerJoyce, lambda cosmo, scatter=True, **kw: k.obj(
        nfw_concentration=lambda m, z: med(m, z, num(scatter), 1.0 if cosmo is L.lc.cosmo else 0.0)))
    a, p = k.pos('norm', 0.1, 10), k.real('power', Real(0, 4, pool=(1.0, 3.0)))
    s = k.real('scatter', Real(0, 0.5, pool=(0.0, 0.1)))
    k.begin()
    f = k.run(t.TruncateMeanDensity, L.lc, a, p, s)
    got = k.run(f.truncation_radius_halo, h)
    tau = a * (h.c / med(h.mass, h.z_eval, 0.0, 1.0)) ** p
    rs = L.rs(h.mass, h.c, h.z_eval, 0.0)
    if s > 0:
        k.eq('with scatter', got, rs * k.abs(tau + s * tau * k.std(0, 'Z')))
    else:
        k.eq('without scatter', got, rs * tau)
        k.check('nothing drawn', len(k.draws) == 0)
    g = k.run(t.TruncateMeanDensity, L.lc)
    k.eq('default calibration', k.run(g.truncation_radius_halo, h), rs * 2.0 * (h.c / med(h.mass, h.z_eval, 0.0, 1.0)) ** 3)


@contract('fixed radii', ['Multiple_RS.__init__', 'Multiple_RS.truncation_radius_halo', 'Multiple_RS.truncation_radius',
                          'ConstantTruncationArcsec.__init__', 'ConstantTruncationArcsec.truncation_radius_halo',
                          'ConstantTruncationArcsec.truncation_radius'])
def fixed(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    h = halo(k, L)
    tau = k.pos('tau', 0.01, 100)
    k.begin()
    f = k.run(t.Multiple_RS, L.lc, tau)
    k.eq('multiple of the scale radius', k.run(f.truncation_radius_halo, h), tau * h.nfw_params[1])
    k.eq('multiple of a given scale radius', k.run(f.truncation_radius, h.nfw_params[1]), tau * h.nfw_params[1])
    g = k.run(t.ConstantTruncationArcsec, L.lc, tau)
    k.eq('constant', k.run(g.truncation_radius_halo, h), tau)
    k.eq('constant whatever is given', k.run(g.truncation_radius, h.mass, z=1.0), tau)


def tidal(k):
    """assumed: the tables of mass loss and of the truncation radius, and the truncated profile, as functions of their arguments"""
    import pyHalo.Halos.tidal_truncation as t
    loss = {}
    for i, c in enumerate((t.InterpGalacticus, t.InterpGalacticusKeeley24, t.InterpGalacticusMW, t.InterpGalacticusZinfall)):
        loss[c.__name__] = k.fn('loss%d' % i, Real(-9, 0, pool=(-8.0, -0.001, -0.0005, -9.0, 0.0)))
        k.override(c, lambda c=c.__name__: loss[c])
    logtau = k.fn('log10tau', Real(-4, 2))
    k.override(t.tau_mf_interpolation, lambda: lambda p: logtau(p[0], p[1]))
    rte, ft = k.fn('r_te', posgen(k)), k.fn('f_t', Real(0, 1, lo_open=True))
    k.override(t.compute_r_te_and_f_t, lambda mb, m, r, c: (rte(mb, m, r, c), ft(mb, m, r, c)))
    return k.obj(loss=loss, logtau=logtau, rte=rte, ft=ft)


@contract('stripped subhalos, by infall time or redshift', ['TruncationGalacticus.__init__', 'TruncationGalacticus.truncation_radius_halo',
          'TruncationGalacticus.truncation_radius', 'TruncationGalacticus.truncation_radius_from_bound_mass', 'TruncationGalacticus.calculate_mbound',
          'TruncationGalacticus.halo_time_since_infall', 'TruncationGalacticusZinfall.__init__', 'TruncationGalacticusZinfall.truncation_radius_halo',
          'TruncationGalacticusZinfall.truncation_radius', 'TruncationGalacticusZinfall.truncation_radius_from_bound_mass',
          'TruncationGalacticusZinfall.calculate_mbound', 'TruncationGalacticusZinfall.halo_deltaz_infall', 'TruncationGalacticusMilkyWay.__init__',
          'TruncationGalacticusMilkyWay.truncation_radius_halo', 'TruncationGalacticusMilkyWay.truncation_radius',
          'TruncationGalacticusMilkyWay.truncation_radius_from_bound_mass', 'TruncationGalacticusMilkyWay.calculate_mbound',
          'TruncationGalacticusMilkyWay.halo_time_since_infall'], again=('truncation_radius_from_bound_mass', 'truncation_radius_halo'))
def galacticus(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    T = tidal(k)
    h = halo(k, L)
    cls, table = k.choice('model', [(t.TruncationGalacticus, 'InterpGalacticus'), (t.TruncationGalacticusZinfall, 'InterpGalacticusZinfall'),
                                    (t.TruncationGalacticusMilkyWay, 'InterpGalacticusMW')])
    ch = k.real('c_host', Real(2, 14, pool=(4.0, 6.0)))
    pseudo = k.choice('pseudo', [None, False, True])
    kw = {} if pseudo is None else {'psuedo_nfw': pseudo}
    mb2 = k.pos('given bound mass', 1e4, 1e10)
    k.begin()
    f = k.run(cls, L.lc, ch)
    x = h.z_infall - L.lc.z_lens if table == 'InterpGalacticusZinfall' else h.time_since_infall
    mb = h.mass * 10 ** T.loss[table](k.log10(h.c), x, ch)
    r200 = L.r200(h.mass, h.c, h.z_eval, 1.0 if pseudo else 0.0)
    k.eq('bound mass', k.run(f.calculate_mbound, h), mb)
    k.check('normalization left alone by the bound mass', len(h.factors) == 0)
    k.eq('radius', k.run(f.truncation_radius_halo, h, **kw), T.rte(mb, h.mass, r200, h.c))
    k.same('normalization lowered once', h.factors, [T.ft(mb, h.mass, r200, h.c)])
    k.eq('radius from parameters', k.run(f.truncation_radius, h.mass, h.c, x, h.z_eval, **kw), T.rte(mb, h.mass, r200, h.c))
    k.check('normalization left alone by parameters', len(h.factors) == 1)
    k.eq('radius from a bound mass', k.run(f.truncation_radius_from_bound_mass, h, mb2, **kw), T.rte(mb2, h.mass, r200, h.c))
    k.same('normalization from a bound mass', h.factors[1:], [T.ft(mb2, h.mass, r200, h.c)])


@contract('stripped subhalos, tabulated truncation', ['TruncationGalacticusKeeley24.__init__', 'TruncationGalacticusKeeley24.truncation_radius_halo',
          'TruncationGalacticusKeeley24.truncation_radius', 'TruncationGalacticusKeeley24._make_params_in_bounds_tau_evaluate',
          'TruncationGalacticusKeeley24.calculate_mbound', 'TruncationGalacticusKeeley24.truncation_radius_from_bound_mass'])
def keeley(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    T = tidal(k)
    h = halo(k, L)
    ch = k.real('c_host', Real(2, 14, pool=(4.0, 6.0)))
    big = k.real('log10 c', Real(-1, 4, pool=(0.0, 2.7, 3.0, -0.5)))
    mb2 = k.pos('given bound mass', 1e2, 1e10)
    k.begin()
    f = k.run(t.TruncationGalacticusKeeley24, L.lc, ch)
    lost = T.loss['InterpGalacticusKeeley24'](k.log10(h.c), h.time_since_infall, ch)
    k.eq('bound mass', k.run(f.calculate_mbound, h), h.mass * 10 ** lost)
    tau = 10 ** T.logtau(k.min(k.max(k.log10(h.c), 0.0), 2.7), k.min(k.max(lost, -8.0), -0.001))
    rs = L.rs(h.mass, h.c, h.z_eval, 0.0)
    k.eq('radius', k.run(f.truncation_radius_halo, h), tau * rs)
    k.eq('radius from parameters', k.run(f.truncation_radius, h.mass, h.c, h.time_since_infall, ch, h.z_eval), tau * rs)
    tau2 = 10 ** T.logtau(k.min(k.max(k.log10(h.c), 0.0), 2.7), k.min(k.max(k.log10(mb2 / h.mass), -8.0), -0.001))
    k.eq('radius from a bound mass', k.run(f.truncation_radius_from_bound_mass, h, mb2), tau2 * rs)
    k.check('normalization left alone', len(h.factors) == 0)
    a, b = k.run(f._make_params_in_bounds_tau_evaluate, (big, lost))
    k.eq('concentration kept inside the table', a, k.min(k.max(big, 0.0), 2.7), rtol=1e-9)
    k.eq('bound fraction kept inside the table', b, k.min(k.max(lost, -8.0), -0.001))


@contract('bound mass from a normal distribution', ['TruncationBoundMassPDF.__init__', 'TruncationBoundMassPDF.truncation_radius_halo'])
def pdf(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    T = tidal(k)
    h = halo(k, L)
    mu, sig = k.real('mean', Real(-3, 1, pool=(-1.5, 0.0, 0.3))), k.real('width', Real(0, 1, lo_open=True, pool=(0.5,)))
    pseudo = k.choice('pseudo', [None, False, True])
    kw = {} if pseudo is None else {'psuedo_nfw': pseudo}
    k.begin()
    f = k.run(t.TruncationBoundMassPDF, L.lc, mu, sig)
    got = k.run(f.truncation_radius_halo, h, **kw)
    fb = 10 ** (mu + sig * k.std(0, 'Z'))
    fb = k.ite(fb >= 1, 0.999, fb)
    k.check('bound mass below infall mass', k.And(fb > 0, fb < 1))
    r200 = L.r200(h.mass, h.c, h.z_eval, 1.0 if pseudo else 0.0)
    k.eq('radius', got, T.rte(fb * h.mass, h.mass, r200, h.c))
    k.same('normalization lowered once', h.factors, [T.ft(fb * h.mass, h.mass, r200, h.c)])
    g = k.run(t.TruncationBoundMassPDF, L.lc)
    k.check('default distribution', g._log10_fbound_mean == -1.5 and g._log10_fbound_standard_dev == 0.5)


@contract('approximate CDM bound masses', ['TruncationGalacticusApproxCDM.__init__', 'TruncationGalacticusApproxCDM.compute_f_bound',
          'TruncationGalacticusApproxCDM.calculate_mbound', 'TruncationGalacticusApproxCDM.truncation_radius_halo',
          'TruncationGalacticusApproxCDM.truncation_radius_from_bound_mass', 'TruncationGalacticusApproxCDM.truncation_radius'], again=('truncation_radius_from_bound_mass', 'truncation_radius_halo'))
def approx(k):
    import pyHalo.Halos.tidal_truncation as t
    L = lenscosmo(k)
    T = tidal(k)
    h = halo(k, L)
    pseudo = k.choice('pseudo', [None, False, True])
    how = k.choice('asked', ['halo', 'bound mass', 'given bound mass', 'parameters'])
    kw = {} if pseudo is None else {'psuedo_nfw': pseudo}
    mb2 = k.pos('given bound mass', 1e4, 1e10)
    k.begin()
    f = k.run(t.TruncationGalacticusApproxCDM, L.lc)
    z = k.min(k.max(L.lc.z_lens, 0.2), 1.2)
    r200 = L.r200(h.mass, h.c, h.z_eval, 1.0 if pseudo else 0.0)
    if how == 'given bound mass':
        k.eq('radius from a bound mass', k.run(f.truncation_radius_from_bound_mass, h, mb2, **kw), T.rte(mb2, h.mass, r200, h.c))
        k.same('normalization from a bound mass', h.factors, [T.ft(mb2, h.mass, r200, h.c)])
        return
    got = k.run(f.calculate_mbound, h) if how == 'bound mass' else k.run(f.truncation_radius_halo, h, **kw) if how == 'halo' else \
        k.run(f.truncation_radius, h.mass, h.c, h.z_eval, **kw)
    k.check('one draw', len(k.draws) == 1)
    x = k.at(k.std(0, 'truncnorm'), 0)
    a, b = k.draws[0].params[:2]
    s, l = f._scale, f._loc
    k.eq('lower cut of the draw', l + s * a, -10)
    k.eq('upper cut of the draw', l + s * b, 0, atol=1e-12)
    fb = 10 ** (l + s * x)
    mb = h.mass * fb
    if how == 'bound mass':
        k.eq('bound mass', got, mb)
        return
    k.eq('radius', got, T.rte(mb, h.mass, r200, h.c))
    k.same('normalization', h.factors, [T.ft(mb, h.mass, r200, h.c)] if how == 'halo' else [])


@contract('calibration of the approximate bound masses', ['TruncationGalacticusApproxCDM.__init__'], sym=False, seeds=60)
def approx_table(k):
    import pyHalo.Halos.tidal_truncation as t
    z = k.real('z_lens', Real(0.01, 3, pool=(0.1, 0.2, 0.5, 0.8, 1.2, 1.5, 0.3, 1.0)))
    k.begin()
    f = k.run(t.TruncationGalacticusApproxCDM, k.obj(z_lens=z))
    zz = min(max(z, 0.2), 1.2)
    k.eq('width', float(f._scale), float(np.interp(zz, [0.2, 0.5, 0.8, 1.2], [2.5, 1.8, 1.2, 0.6])))
    k.eq('centre', float(f._loc), float(np.interp(zz, [0.2, 0.5, 0.8, 1.2], [-4, -1.3, -1, -1])))


# ------------------------------------------------------------------------------------ the truncated profile

def enclosed(k, x):
    return 4 * k.pi * (k.log(1 + x) - x / (1 + x))


def lowered(k, x):
    """density normalization along the tidal track for NFW profiles"""
    d, e = 0.75826635, 0.23376409
    f = k.ite(x <= 1, (1 + d) * x ** e / (1 + d * x ** (2 * e)), 1.0)
    return k.min(f, 1.0)


@contract('density normalization on the tidal track', ['_f_t_Du_2024'])
def normalization(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    x = k.real('x', Real(0, 3, lo_open=True, pool=(1.0, 0.5, 1e-4, 2.0)))
    k.begin()
    got = k.run(p._f_t_Du_2024, x)
    k.eq('fitting function', got, lowered(k, x))
    k.check('between zero and one', k.And(got > 0, got <= 1))
    k.check('unknown shapes refused', k.call(p._f_t_Du_2024, x, 1.0, 3.0, 0.7).raised(Exception))
    k.check('unknown truncation slopes refused', k.call(p._f_t_Du_2024, x, delta=4.0).raised(Exception))


@contract('mass inside a radius, NFW', ['_M_enclosed_generalized_NFW_dimensionless'])
def nfw_mass(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    x = k.pos('x', 1e-3, 1e3)
    k.begin()
    k.eq('mass', k.run(p._M_enclosed_generalized_NFW_dimensionless, x), enclosed(k, x), rtol=1e-6)


@contract('total mass of a truncated NFW profile', ['_M_total_generalized_NFW_Truncated_dimensionless'])
def total_mass(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    t = k.pos('tau', 1e-3, 1e3)
    k.begin()
    k.eq('mass', k.run(p._M_total_generalized_NFW_Truncated_dimensionless, t),
         4 * k.pi * t ** 2 / (t ** 2 + 1) ** 2 * ((t ** 2 - 1) * k.log(t) + t * k.pi - (t ** 2 + 1)), rtol=1e-6)


@contract('radius and normalization of a stripped halo', ['compute_r_te_and_f_t', 'Convert_to_reference_model'])
def stripped(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    m, c, r = k.real('m', M()), k.real('c', C()), k.pos('r200', 1, 1e3)
    f = k.real('f', Real(0, 2, lo_open=True, pool=(1.0, 0.999, 1e-3)))
    mb = m * f
    rad = k.fn('radius', posgen(k), impl=lambda M, f, a, b, g: (M + f) * (1 + a + 2 * b + 3 * g))
    k.override(p._Truncation_Radius, lambda M, ft, a=1.0, b=3.0, g=1.0: rad(M, ft, a, b, g))
    k.begin()
    got, low = k.run(p.compute_r_te_and_f_t, mb, m, r, c)
    xm, cr = 2.162581587064612, 20.587820037799197
    y = mb / (m / enclosed(k, c) * enclosed(k, xm))
    want = lowered(k, y * (enclosed(k, xm) / enclosed(k, cr) * 1e9 / 1.1605002e9))
    k.eq('normalization', low, want)
    k.eq('radius', got, r / c * rad(mb / (m / enclosed(k, c)), want, 1.0, 3.0, 1.0))


def fresh_table(p):
    """the module as imported"""
    for n, v in (('x_min', 1e-6), ('x_max', 1e4), ('Mass_table_Initialized', False)):
        if hasattr(p, n):
            setattr(p, n, v)


@contract('profiles other than NFW', ['compute_r_te_and_f_t', '_M_total_generalized_NFW_Truncated_dimensionless'], sym=False, seeds=12)
def other_shapes(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    fresh_table(p)
    k.begin()
    for s in [(2.0, 4.0, 0.0), (1.0, 4.0, 0.0), (1.0, 4.0, 0.5), (1.0, 4.0, 1.0), (1.0, 4.0, 1.5), (2.0, 3.0, 0.0)]:
        out = k.call(p.compute_r_te_and_f_t, 1e7, 1e8, 10.0, 12.0, *s)
        k.check('alpha=%g beta=%g' % s[:2], out.ok and np.isfinite(float(out.value[0])) and 0 < float(out.value[1]) <= 1)


SHAPES = [(1.0, 3.0, 0.0), (1.0, 3.0, 0.5), (1.0, 3.0, 1.0), (1.0, 3.0, 1.5)]


@contract('a truncated profile holds the bound mass', ['_Truncation_Radius', 'compute_r_te_and_f_t', '_M_enclosed_generalized_NFW_dimensionless',
          '_M_total_generalized_NFW_Truncated_dimensionless', '_R_max_generalized_NFW_dimensionless', 'Convert_to_reference_model', '_f_t_Du_2024'],
          sym=False, seeds=60)
def holds(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    from scipy.integrate import quad
    fresh_table(p)
    k.begin()
    for i in range(4):
        a, b, g = k.choice('shape%d' % i, SHAPES + [SHAPES[2]] * 3)
        m, c, r = k.real('m%d' % i, M()), k.real('c%d' % i, C()), k.pos('r200%d' % i, 1, 1e3)
        f = k.real('f%d' % i, Real(1e-6, 1, pool=(0.999, 1e-3, 1e-5), log=True))
        rt, ft = k.run(p.compute_r_te_and_f_t, f * m, m, r, c, a, b, g)
        rs = r / c

        def rho(x):
            return x ** (2 - g) / (1 + x ** a) ** ((b - g) / a)
        inside = quad(lambda u: rho(np.exp(u)) * np.exp(u), -25, np.log(c), limit=400)[0]
        # beyond the radii of a real halo the truncated profile carries on: the total mass is that of the whole profile
        total = quad(lambda u: rho(np.exp(u)) / (1 + np.exp(2 * u) / (rt / rs) ** 2) * np.exp(u), -30, 30, limit=800)[0]
        k.check('bound mass %d' % i, abs(ft * total / inside / f - 1) < 2e-3)
        k.check('normalization %d' % i, 0 < ft <= 1)
        k.eq('enclosed mass %d' % i, float(p._M_enclosed_generalized_NFW_dimensionless(c, a, b, g)), 4 * np.pi * inside, rtol=1e-6)


@contract('largest circular velocity', ['_R_max_generalized_NFW_dimensionless'], sym=False, seeds=20)
def rmax(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    a, b, g = k.choice('shape', SHAPES + [(1.0, 4.0, 0.0), (1.0, 4.0, 0.5), (1.0, 4.0, 1.0), (1.0, 4.0, 1.5), (2.0, 3.0, 0.0), (2.0, 4.0, 0.0)])
    k.begin()
    x = k.run(p._R_max_generalized_NFW_dimensionless, a, b, g)
    v = lambda y: p._M_enclosed_generalized_NFW_dimensionless(y, a, b, g) / y
    k.check('a maximum', v(x) > v(x * 1.01) and v(x) > v(x / 1.01))
    k.check('located', abs(v(x * 1.001) - v(x / 1.001)) < 1e-6 * v(x))


@contract('published tidal track of other profiles', ['_f_t_Du_2024', '_M_enclosed_generalized_NFW_dimensionless'], sym=False, seeds=40)
def tracks(k):
    import pyHalo.Halos.galacticus_truncation.transfer_function_density_profile as p
    from scipy.integrate import quad
    DE = {(1.0, 3.0, 0.0, 2.0): (1.48242247, 0.63639230), (1.0, 3.0, 0.5, 2.0): (1.17122717, 0.45000174), (1.0, 3.0, 1.5, 2.0): (-9.95103536e-01, 1.31454694e-04),
          (1.0, 4.0, 0.5, 2.0): (0.75235790, 0.47771706), (1.0, 4.0, 0.0, 2.0): (1.18519061, 0.73729078), (1.0, 4.0, 1.0, 2.0): (0.36838147, 0.22307797),
          (1.0, 4.0, 1.5, 2.0): (0.28500656, 0.10528364), (2.0, 3.0, 0.0, 2.0): (1.37068893, 0.83149579), (2.0, 4.0, 0.0, 2.0): (0.83836120, 1.23071929),
          (1.0, 3.0, 0.0, 3.0): (1.40209850, 0.63252747), (1.0, 3.0, 0.5, 3.0): (1.08663071, 0.45228951), (1.0, 3.0, 1.0, 3.0): (1.43637351, -0.24907289),
          (1.0, 3.0, 1.5, 3.0): (0.08092773, 0.08490512), (1.0, 4.0, 0.0, 3.0): (1.08789526, 0.72799030), (1.0, 4.0, 0.5, 3.0): (0.68794863, 0.48619566),
          (1.0, 4.0, 1.0, 3.0): (0.33591171, 0.25084764), (1.0, 4.0, 1.5, 3.0): (0.15135479, 0.12838997), (2.0, 3.0, 0.0, 3.0): (1.31446961, 0.82402378),
          (2.0, 4.0, 0.0, 3.0): (0.77798730, 1.21267992)}
    s = k.choice('shape', sorted(DE))
    x = k.real('x', Real(1e-4, 3, pool=(1.0, 0.5, 1.5)))
    y = k.pos('y', 0.05, 100)
    k.begin()
    d, e = DE[s]
    k.eq('normalization', float(k.run(p._f_t_Du_2024, x, *s)), min(1.0, (1 + d) * x ** e / (1 + d * x ** (2 * e)) if x <= 1 else 1.0))
    a, b, g, _ = s
    q = quad(lambda u: np.exp(u) ** (3 - g) / (1 + np.exp(u) ** a) ** ((b - g) / a), -40, np.log(y), limit=400)[0]
    k.eq('enclosed mass', float(k.run(p._M_enclosed_generalized_NFW_dimensionless, y, a, b, g)), 4 * np.pi * q, rtol=1e-6)


def tnfw_mass(k, x, t):
    """mass of a truncated NFW profile inside x scale radii, in units of 4 pi rho rs^3"""
    t2 = t ** 2
    return t2 / (t2 + 1) ** 2 * (-(t2 + 1) * x / (1 + x) + (t2 - 1) * k.log((1 + x) / k.sqrt(1 + x ** 2 / t2)) + 2 * t * k.arctan(x / t))


def real_profile(k, u):
    """assumed of lenstronomy: the mass inside a radius of its truncated NFW profile"""
    class Prof(object):
        def mass_3d(self, r, Rs, rho0, r_trunc):
            one = lambda t: 4 * k.pi * rho0 * Rs ** 3 * tnfw_mass(k, r / Rs, t / Rs)
            return k.amap(one, r_trunc) if k.is_seq(r_trunc) else one(r_trunc)
    k.override(u.TNFW, Prof)


@contract('mass fraction of a truncated profile', ['tnfw_mass_fraction'])
def mass_fraction(k):
    import pyHalo.Halos.tnfw_halo_util as u
    real_profile(k, u)
    tau, c = k.pos('tau', 1e-3, 1e3), k.real('c', C())
    k.begin()
    k.eq('fraction', k.run(u.tnfw_mass_fraction, tau, c), tnfw_mass(k, c, tau) / (k.log(1 + c) - c / (1 + c)))


@contract('table of truncation radii', ['tau_mf_interpolation', 'tnfw_mass_fraction'], sym=False, seeds=1)
def tau_table(k):
    import pyHalo.Halos.tnfw_halo_util as u
    real_profile(k, u)
    k.begin()
    f = k.run(u.tau_mf_interpolation)
    for logc in (0.0, 0.1, 0.5, 1.0, 1.2, 1.7, 2.6, 2.7):
        c = 10 ** logc
        for tau in (0.005, 0.02, 0.1, 0.3, 1.0, 3.0, 10.0):
            mf = float(tnfw_mass(k, c, tau) / (np.log(1 + c) - c / (1 + c)))
            if 1e-5 < mf < 0.9:
                k.check('inverse %s %s' % (logc, tau), abs(float(f((logc, np.log10(mf)))) - np.log10(tau)) < 0.05)


@contract('names of the truncation models', ['truncation_models'])
def names(k):
    import pyHalo.truncation_models as tm
    import pyHalo.Halos.tidal_truncation as t
    want = {'TRUNCATION_R50': (t.TruncationRN, {'LOS_truncation_factor': 50}), 'TRUNCATION_R200': (t.TruncationRN, {'LOS_truncation_factor': 200}),
            'TRUNCATION_RN': (t.TruncationRN, {}), 'TRUNCATION_ROCHE': (t.TruncationRoche, {}),
            'TRUNCATION_ROCHE_GILMAN2020': (t.TruncationRoche, {'RocheNorm': 1.4, 'm_power': 1. / 3, 'RocheNu': 2. / 3}),
            'SPLASHBACK': (t.TruncationSplashBack, {}), 'TRUNCATION_MEAN_DENSITY': (t.TruncateMeanDensity, {}),
            'TRUNCATION_GALACTICUS': (t.TruncationGalacticus, {}), 'TRUNCATION_GALACTICUS_ZINFALL': (t.TruncationGalacticusZinfall, {}),
            'TRUNCATION_GALACTICUS_KEELEY24': (t.TruncationGalacticusKeeley24, {}), 'CONSTANT': (t.ConstantTruncationArcsec, {}),
            'MULTIPLE_RS': (t.Multiple_RS, {}), 'BOUND_MASS_PDF': (t.TruncationBoundMassPDF, {}),
            'TRUNCATION_GALACTICUS_CDM_APPROX': (t.TruncationGalacticusApproxCDM, {})}
    name = k.choice('name', sorted(want) + ['NONE'])
    k.begin()
    out = k.call(tm.truncation_models, name)
    if name == 'NONE':
        k.check('unknown names refused', out.raised(Exception))
    else:
        k.check('model', out.value[0] is want[name][0])
        k.same('options', out.value[1], want[name][1])
    k.check('a class is passed through', k.run(tm.truncation_models, t.TruncationRN) == (t.TruncationRN, {}))
