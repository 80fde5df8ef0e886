"""self-interacting dark matter halo profiles"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen
from .halolib import M, Z, F, classes, world, truncation, build, nfw, history, lensmodel, keys, at, source, ages
from .specs.sidm import enclosed, projected
from .specs.profile import kappa, disk, surface_slope

PROPERTY = dict(
    title='Cored and collapsed halos: calibrated evolution, conserved mass',
    statement="""Scale and core radius of an evolving self-interacting halo follow the calibrated functions of age over collapse time: the published
    polynomials up to collapse, their extrapolation beyond, frozen at 1.6 collapse times, with a positive core throughout. The age counts the time before infall
    once and the time since infall times the configured factor; field halos have their age. Cored halos of evolving, or given core size, are normalized to
    the mass asked for inside the NFW halo's r200. A collapsed halo has an inner and an outer component with the slopes, truncation and inner scale asked for that
    together enclose the two target masses inside their two radii; impossible targets are refused. With a black hole, the inner component has the Einstein radius of
    the inner target mass. A hybrid weights both components linearly. Densities, projected masses and deflections are those of the lens model. Lens
    models are in arcsec at the halo's redshift, at its current position, follow its rescaling, and the split lens model agrees with the joint one.""",
    over=['inputs', 'histories'],
    forall='all halo masses, redshifts, concentrations, ages over collapse time, core sizes, slopes, target masses, rescaling factors, orders of reading and moving',
    tests='the tests build single halos at a few ages over collapse time and compare densities to plots',
    files=['pyHalo/Halos/HaloModels/NFW_core_trunc.py', 'pyHalo/Halos/HaloModels/core_collapsed_halo.py'],
    mechanism=[('evolve_profile', 'pyHalo/Halos/HaloModels/NFW_core_trunc.py'),
               ('TNFWCHaloParametric, TNFWCHaloEvolving, Hybrid', 'pyHalo/Halos/HaloModels/NFW_core_trunc.py'),
               ('CoreCollapsedHalo, CoreCollapsedHaloBH', 'pyHalo/Halos/HaloModels/core_collapsed_halo.py'),
               ('LensCosmo.sidm_halo_effective_age', 'pyHalo/Halos/lens_cosmo.py')],
)


def rs_of(k, t):
    """Yang et al. 2023, eq. 2.4, up to collapse; extrapolated with a decaying scale radius beyond"""
    pub = lambda t: 1.13293 - 0.518186 * t + 0.30265 * t ** 2 - 0.400463 * t ** 3 + (1 - 1.13293) * k.log(0.001 + t) / k.log(0.001)
    return k.ite(t <= 1, pub(t), pub(0.5) * k.exp(-0.47 * (t - 0.5) - 2.4 * (t - 0.5) ** 3))


def rc_of(k, t):
    pub = lambda t: 1.06419 * k.sqrt(t) - 1.33207 * t + 0.431133 * t ** 2 - 0.148087 * t ** 3 + 0.024455 * t ** 4
    return k.ite(t <= 1, pub(t), k.max(pub(0.5) - 0.28 * (t - 0.5), 0.0001))


@contract('evolution of the radii', ['evolve_profile', 'rs_evolution', 'rc_evolution', '_rs_evolution', '_rc_evolution', 'rs_extrapolation', 'rc_extrapolation'])
def evolution(k):
    from pyHalo.Halos.HaloModels.NFW_core_trunc import evolve_profile
    t, rs0 = k.real('age over collapse time', Real(0, 4, pool=(1.0, 0.5, 1.6, 1.5, 1.2, 1e-3))), k.real('rs', Real(0.01, 50))
    k.begin()
    rs, rc = k.run(evolve_profile, t, rs0)
    u = k.min(t, 1.6)
    k.eq('scale radius', rs, rs0 * rs_of(k, u))
    k.eq('core radius', rc, k.max(rs0 * rc_of(k, u), 1e-7 * (rs0 * rs_of(k, u))))


@contract('density normalization', ['rho_s_evolution'])
def density(k):
    from pyHalo.Halos.HaloModels.NFW_core_trunc import rho_s_evolution
    t = k.real('t', Real(0, 2))
    k.begin()
    got = k.run(rho_s_evolution, t)
    k.eq('published', got, 0.692896 + 1.11215 * t + 4.08729 * t ** 5 - 5.78038 * t ** 7 + 5.30498 * t ** 9 + (1 - 0.692896) * k.log(0.001 + t) / k.log(0.001))


def cored(k, cls, lc, s, args, age=None):
    sub = k.choice('subhalo', [True, False])
    h, m, z, sub = build(k, cls, lc, s, sub=sub, args=args)
    return h, m, z, sub


def parts(k, lc, s, z, zs):
    kpa = s['kpa'](z)
    return kpa, k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6


def normalization(k, label, alpha, mass, lc, s, z, zs, rs0, r200, Rs, rc, rt):
    """the deflection scale encloses the mass inside r200"""
    from lenstronomy.LensModel.Profiles.nfw_core_truncated import TNFWC
    kpa, sc = parts(k, lc, s, z, zs)
    total = k.run(enclosed, TNFWC().density_lens, sc / kpa, kpa, rs0, r200, 250 if k.sym else 20000, Rs / kpa, 1.0, rc / kpa, rt / kpa)
    k.eq(label, alpha, mass / total, rtol=None if k.sym else 2e-3)


@contract('halos of given core size', ['TNFWCHaloParametric.profile_args', 'TNFWCHaloParametric.lenstronomy_params', 'TNFWCHaloParametric.lenstronomy_ID',
                                       'TNFWCHaloParametric.params_physical', 'TNFWCHaloParametric.vmax_nfw', 'TNFWCHaloParametric.c'])
def parametric(k):
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloParametric as C
    zs = source(k)
    lc, s = world(k, zs)
    x, mass, rt = k.real('core over rs', Real(0.001, 1)), k.real('mass to conserve', Real(1e5, 1e10)), k.real('truncation', Real(0.01, 50))
    args = dict(x_core_halo=x, mass_conservation=mass, rt_kpc=rt)
    h, m, z, sub = cored(k, C, lc, s, args)
    h, px, py, norm = history(k, h, lc, reads=('params_physical', 'vmax_nfw'))
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    core = k.ite(rt < x * rs, 0.99 * rt, x * rs)
    kw = lensmodel(k, h, ['TNFWC'])
    keys(k, kw, 'alpha_Rs', 'Rs', 'r_trunc', 'r_core')
    at(k, kw, px, py)
    kpa = s['kpa'](z)
    k.eq('scale', kw['Rs'], core / kpa)
    k.eq('core', kw['r_core'], 0.99 * core / kpa)
    k.eq('truncation', kw['r_trunc'], rt / kpa)
    p = k.get(h, 'params_physical')
    a, Rs, rc, rtr, r2 = k.get(h, 'profile_args')
    k.eq('deflection follows the rescaling', kw['alpha_Rs'], norm * a)
    for q, v in (('rhos', a * norm), ('rs', core), ('r200', c * rs), ('r_trunc_kpc', rt), ('r_core_kpc', 0.99 * core)):
        k.eq('physical ' + q, p[q], v)
    normalization(k, 'encloses its mass', a, mass, lc, s, z, zs, rs, c * rs, core, 0.99 * core, rt)
    k.eq('maximum velocity', k.get(h, 'vmax_nfw'), 1.64 * k.sqrt(4.3e-6 * (norm * rhos) * rs ** 2))
    k.eq('concentration', k.get(h, 'c'), c)


@contract('evolving halos', ['TNFWCHaloEvolving.profile_args', 'TNFWCHaloEvolving.halo_effective_age', 'TNFWCHaloEvolving.t_over_tc', 'TNFWCHaloEvolving.sidm_timescale',
                             'LensCosmo.sidm_halo_effective_age', 'evolve_profile'], timeout=8.0)
def evolving(k):
    import pyHalo.Halos.HaloModels.NFW_core_trunc as E
    zs = source(k)
    lc, s = world(k, zs)
    mass, rt = k.real('mass to conserve', Real(1e5, 1e10)), k.real('truncation', Real(0.01, 50))
    tc, lam = k.real('collapse time', Real(0.5, 100)), k.real('lambda', Real(0.1, 10))
    args = dict(sidm_timescale=tc, lambda_t=lam, mass_conservation=mass, rt_kpc=rt)
    h, m, z, sub = cored(k, E.TNFWCHaloEvolving, lc, s, args)
    zi = s['zi'](m)
    if sub and k.choice('infall', ['drawn', 'given']) == 'given':
        zi = k.real('z_infall', Real(0.1, 12))
        k.run(h.set_infall_redshift, zi)
    rs_t, rc_t = k.fn('rs(t)', posgen(k, 0.1, 10)), k.fn('rc(t)', posgen(k, 0.1, 10))
    E_ = lambda t, rs0: (rs_t(t, rs0), rc_t(t, rs0))
    k.override(E.evolve_profile, E_)
    h, px, py, norm = history(k, h, lc, move=False)
    ze = zi if sub else z
    c = s['cfn'](m, ze)
    age = ages(k, s, z, zi, sub, lam)
    k.eq('effective age', k.get(h, 'halo_effective_age'), age)
    k.eq('collapse time', k.get(h, 'sidm_timescale'), tc)
    t = k.get(h, 't_over_tc')
    k.eq('age over collapse time', t, age / tc)
    _, rs0, _ = k.run(lc.NFW_params_physical, m, c, ze, True)
    a, Rs, rc, rtr, r2 = k.get(h, 'profile_args')
    k.eq('scale radius', Rs, rs_t(t, rs0))
    k.eq('core radius', rc, rc_t(t, rs0))
    k.eq('truncation', rtr, rt)
    k.eq('r200', r2, c * rs0)
    normalization(k, 'encloses its mass', a, mass, lc, s, z, zs, rs0, c * rs0, Rs, rc, rt)
    kw = lensmodel(k, h, ['TNFWC'])
    at(k, kw, px, py)
    kpa = s['kpa'](z)
    k.eq('scale in arcsec', kw['Rs'], Rs / kpa)
    k.eq('core in arcsec', kw['r_core'], rc / kpa)
    k.eq('truncation in arcsec', kw['r_trunc'], rt / kpa)
    k.eq('deflection', kw['alpha_Rs'], norm * a)


def tnfwc(k, lc, s, h=None):
    """a halo of given core size and its lens model"""
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloParametric as C
    args = dict(x_core_halo=k.real('core over rs', Real(0.001, 1)), mass_conservation=k.real('mass to conserve', Real(1e5, 1e10)), rt_kpc=k.real('truncation', Real(0.01, 50)))
    return build(k, C, lc, s, sub=k.choice('subhalo', [True, False]), args=args)


@contract('densities of cored halos', ['TNFWCHaloParametric.density_profile_3d', 'TNFWCHaloParametric.density_profile_3d_lenstronomy', 'TNFWCHaloParametric.mass_2d'])
def cored_density(k):
    from lenstronomy.LensModel.Profiles.nfw_core_truncated import TNFWC
    zs = source(k)
    lc, s = world(k, zs)
    h, m, z, sub = tnfwc(k, lc, s)
    if k.choice('rescaled', [True, False]):
        k.run(h.rescale_normalization, k.real('factor', F()))
    kpa, sc = parts(k, lc, s, z, zs)
    kw = k.get(h, 'lenstronomy_params')[0][0]
    shape = lambda kw: (kw['Rs'], kw['alpha_Rs'], kw['r_core'], kw['r_trunc'])
    r = k.real('r', Real(0.01, 50))
    k.begin()
    want = sc / kpa * k.run(TNFWC().density_lens, r / kpa, *shape(kw))
    k.eq('density', k.run(h.density_profile_3d, r), want)
    k.eq('density of the lens model', k.run(h.density_profile_3d_lenstronomy, r), want)
    o = {q: k.real(q, Real(0.1, 3)) for q in ('Rs', 'alpha_Rs', 'r_core', 'r_trunc')}
    k.eq('density of other keywords', k.run(h.density_profile_3d_lenstronomy, r, o), sc / kpa * k.run(TNFWC().density_lens, r / kpa, *shape(o)))


@contract('projected mass of cored halos', ['TNFWCHaloParametric.mass_2d'], seeds=40)
def cored_mass(k):
    from lenstronomy.LensModel.Profiles.nfw_core_truncated import TNFWC
    zs = source(k)
    lc, s = world(k, zs)
    h, m, z, sub = tnfwc(k, lc, s)
    kpa, sc = parts(k, lc, s, z, zs)
    kw = k.get(h, 'lenstronomy_params')[0][0]
    shape = kw['Rs'], kw['alpha_Rs'], kw['r_core'], kw['r_trunc']
    k.begin()
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    R = k.choice('inside', ['r200', 'given'])
    Rv = r200 if R == 'r200' else k.real('R', Real(0.1, 100))
    got = k.run(h.mass_2d, 'r200' if R == 'r200' else Rv)
    total = k.run(projected, TNFWC().hessian, Rv / kpa, 5000 if k.sym else 20000, *shape)
    k.eq('projected mass', got, total * (sc * kpa ** 2), rtol=None if k.sym else 2e-3)


@contract('slope of the convergence of cored halos', ['TNFWCHaloParametric.log_slope_2d'], seeds=60)
def cored_slope(k):
    from lenstronomy.LensModel.Profiles.nfw_core_truncated import TNFWC
    lc, s = world(k)
    h, m, z, sub = tnfwc(k, lc, s)
    kw = k.get(h, 'lenstronomy_params')[0][0]
    shape = kw['Rs'], kw['alpha_Rs'], kw['r_core'], kw['r_trunc']
    kpa = s['kpa'](z)
    R = k.real('radius', Real(0.1, 10))
    k.begin()
    if k.sym:
        r = k.arr([R, R * 1.5, R * 2, R * 4])
        k.same('slope', k.run(h.log_slope_2d, r), k.run(surface_slope, TNFWC().hessian, r / kpa, *shape))
        return
    r = np.logspace(-1, 1, 400) * R

    def kappa(r):
        fxx, _, _, fyy = TNFWC().hessian(r / kpa, 0, *shape)
        return (fxx + fyy) / 2
    e = 1e-4
    want = (np.log(kappa(r * (1 + e))) - np.log(kappa(r * (1 - e)))) / (np.log(1 + e) - np.log(1 - e))
    got = k.run(h.log_slope_2d, r)
    k.check('slope', len(got) == len(r) and np.allclose(got[1:-1], want[1:-1], rtol=0.02, atol=0.02))


@contract('hybrid halos', ['Hybrid.__init__', 'Hybrid.lenstronomy_params', 'Hybrid.lenstronomy_ID', 'Hybrid.c', 'Hybrid.profile_args', 'Hybrid.nfw_params', 'Hybrid.vmax_nfw',
                           'Hybrid.density_profile_3d', 'Hybrid.density_profile_3d_lenstronomy', 'Hybrid.t_over_tc', 'Hybrid.halo_effective_age', 'Hybrid.sidm_timescale'], timeout=8.0)
def hybrid(k):
    import pyHalo.Halos.HaloModels.NFW_core_trunc as E
    zs = source(k)
    lc, s = world(k, zs)
    sub = k.choice('subhalo', [True, False])
    a, m, z, _ = build(k, classes()['TNFWSubhalo' if sub else 'TNFWFieldHalo'], lc, s, sub=sub, trunc=truncation(k, s))
    tc, mass, rt = k.real('collapse time', Real(0.5, 100)), k.real('mass to conserve', Real(1e5, 1e10)), k.real('truncation', Real(0.01, 50))
    b = k.run(E.TNFWCHaloEvolving, m, a.x, a.y, a.r3d, z, sub, lc, dict(sidm_timescale=tc, lambda_t=2.0, mass_conservation=mass, rt_kpc=rt), None, s['conc'], a.unique_tag)
    if sub:
        zi = k.real('z_infall', Real(0.5, 9))
        k.run(a.set_infall_redshift, zi)
    if k.choice('read before', [True, False]):
        k.get(a, 'lenstronomy_params')
        k.get(b, 'lenstronomy_params')
    w = k.real('weight of the cored component', Real(0, 1))
    k.begin()
    h = k.run(E.Hybrid, a, b, w)
    for q in ('mass', 'x', 'y', 'r3d', 'z', 'unique_tag'):
        k.eq(q, getattr(h, q), getattr(a, q))
    k.check('host or field status', h.is_subhalo is sub and h.lens_cosmo is lc)
    k.eq('one concentration', k.get(b, 'c'), k.get(a, 'c'))
    k.eq('concentration', k.get(h, 'c'), k.get(a, 'c'))
    if sub:
        k.eq('one infall redshift', k.get(b, 'z_infall'), k.get(a, 'z_infall'))
    h, x, y, norm = history(k, h, lc, reads=('density_profile_3d_lenstronomy',))
    k.check('names of the lens models', list(k.get(h, 'lenstronomy_ID')) == ['TNFW', 'TNFWC'])
    kw, extra = k.get(h, 'lenstronomy_params')
    k.check('one dictionary per lens model', len(kw) == 2 and extra is None)
    for q, part, wt in ((0, a, 1 - w), (1, b, w)):
        own = k.get(part, 'lenstronomy_params')[0][0]
        at(k, kw[q], x, y)
        k.check('keywords', set(kw[q]) == set(own))
        for n in own:
            if n == 'alpha_Rs':
                k.eq('weighted deflection', kw[q][n], norm * wt * own[n])
            elif n[:6] != 'center':
                k.eq('component ' + n, kw[q][n], own[n])
    r = k.real('r', Real(0.1, 20))
    k.eq('density', k.run(h.density_profile_3d, r), (1 - w) * k.run(a.density_profile_3d, r) + w * k.run(b.density_profile_3d, r))
    k.eq('density of the lens model', k.run(h.density_profile_3d_lenstronomy, r),
         (1 - w) * k.run(a.density_profile_3d_lenstronomy, r) + w * k.run(b.density_profile_3d_lenstronomy, r))
    for q in ('t_over_tc', 'halo_effective_age', 'sidm_timescale'):
        k.eq(q, k.get(h, q), k.get(b, q))
    k.eq('maximum velocity', k.get(h, 'vmax_nfw'), k.get(a, 'vmax_nfw'))
    pa = k.get(h, 'profile_args')
    k.same('profile parameters', [list(pa[0]), list(pa[1])], [list(k.get(a, 'profile_args')), list(k.get(b, 'profile_args'))])
    na, nb = k.get(a, 'nfw_params'), k.get(b, 'nfw_params')
    k.same('NFW parameters', [list(q) for q in k.get(h, 'nfw_params')], [[na[i], nb[i]] for i in range(3)])


def targets(k):
    """options of a collapsed halo"""
    return dict(gamma_inner=k.real('inner slope', Real(1.5, 2.9)), gamma_outer=k.real('outer slope', Real(3.5, 7)), rt_kpc=k.real('truncation', Real(0.1, 50)),
                Rs_inner_kpc=k.real('inner scale', Real(0.01, 5)), r_match_kpc=k.real('matching radius', Real(0.01, 5)),
                m_target_R=k.real('mass inside the matching radius', Real(1e4, 1e8)), m_target_r200=k.real('mass inside r200', Real(1e6, 1e10)))


@contract('collapsed halos', ['CoreCollapsedHalo.profile_args', 'CoreCollapsedHalo.lenstronomy_params', 'CoreCollapsedHalo.lenstronomy_params_split', 'CoreCollapsedHalo.lenstronomy_ID',
                              'CoreCollapsedHalo.c', 'CoreCollapsedHaloBH.profile_args', 'CoreCollapsedHaloBH.lenstronomy_params', 'CoreCollapsedHaloBH.lenstronomy_params_split',
                              'CoreCollapsedHaloBH.lenstronomy_ID', 'CoreCollapsedHalo.__init__', 'CoreCollapsedHaloBH.__init__'], timeout=8.0)
def collapsed(k):
    from pyHalo.Halos.HaloModels.core_collapsed_halo import CoreCollapsedHalo, CoreCollapsedHaloBH
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw as P
    zs = source(k)
    lc, s = world(k, zs)
    bh = k.choice('black hole', [False, True])
    o = targets(k)
    given = dict(o)
    h, m, z, sub = build(k, CoreCollapsedHaloBH if bh else CoreCollapsedHalo, lc, s, sub=k.choice('subhalo', [True, False]), args=o)
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    kpa, sc = parts(k, lc, s, z, zs)
    Rs, rt, Ri = rs / kpa, o['rt_kpc'] / kpa, o['Rs_inner_kpc'] / kpa
    # masses of the components with deflection one, inside the matching radius and r200, in units of the critical density per area
    outer = [k.run(TNFW().mass_3d, r / kpa, Rs, k.run(TNFW().alpha2rho0, 1.0, Rs), rt / Rs) for r in (o['r_match_kpc'], r200)]
    inner = [k.run(P().mass_3d_lens, r / kpa, Ri, 1.0, o['gamma_inner'], o['gamma_outer']) for r in (o['r_match_kpc'], r200)]
    det = outer[0] * inner[1] - outer[1] * inner[0]
    k.assume(k.Not(k.Eq(det, 0)))
    k.begin()
    out = k.read(h, 'profile_args')
    X = [o['m_target_R'] / (sc * kpa ** 2), o['m_target_r200'] / (sc * kpa ** 2)]
    ao = (inner[1] * X[0] - inner[0] * X[1]) / det
    ai = (outer[0] * X[1] - outer[1] * X[0]) / det
    if out.raised(Exception):
        k.check('targets refused only if a component had negative mass', k.Or(ao < 0, ai < 0))
        return
    k.check('both components have positive mass', k.And(ao >= 0, ai >= 0))
    p = out.value
    factor = k.run(lc.point_mass_factor_z, z)
    if bh:
        k.same('profile parameters', list(p), [factor * k.sqrt(o['m_target_R']), Rs, ao, Rs, rt])
    else:
        k.same('profile parameters', list(p), [ai, Rs, Ri, o['gamma_inner'], o['gamma_outer'], ao, Rs, rt])
    h, x, y, norm = history(k, h, lc)
    kw = lensmodel(k, h, ['CORE_COLLAPSED_HALO_BH' if bh else 'CORE_COLLAPSED_HALO'])
    at(k, kw, x, y)
    k.eq('outer scale', kw['Rs_outer'], k.round(Rs, 10))
    k.eq('truncation', kw['r_trunc'], k.round(rt, 10))
    k.eq('outer deflection', kw['alpha_Rs_outer'], norm * k.round(ao, 10))
    if bh:
        keys(k, kw, 'Rs_outer', 'r_trunc', 'alpha_Rs_outer', 'theta_E_inner')
        k.eq('black hole', kw['theta_E_inner'], k.sqrt(norm) * k.round(factor * k.sqrt(o['m_target_R']), 10))
    else:
        keys(k, kw, 'Rs_outer', 'r_trunc', 'alpha_Rs_outer', 'Rs_inner', 'alpha_Rs_inner', 'gamma_inner', 'gamma_outer')
        k.eq('inner scale', kw['Rs_inner'], k.round(Ri, 10))
        k.eq('inner deflection', kw['alpha_Rs_inner'], norm * k.round(ai, 10))
        k.eq('inner slope', kw['gamma_inner'], o['gamma_inner'])
        k.eq('outer slope', kw['gamma_outer'], o['gamma_outer'])
    split, extra = k.get(h, 'lenstronomy_params_split')
    k.check('two components', len(split) == 2 and extra is None)
    same = (({'theta_E': 'theta_E_inner'} if bh else {'alpha_Rs': 'alpha_Rs_inner', 'Rs': 'Rs_inner', 'gamma_inner': 'gamma_inner', 'gamma_outer': 'gamma_outer'}),
            {'alpha_Rs': 'alpha_Rs_outer', 'Rs': 'Rs_outer', 'r_trunc': 'r_trunc'})
    for q, names in zip(split, same):
        keys(k, q, *names)
        for n in names:
            k.eq('split ' + names[n], q[n], kw[names[n]])
        at(k, q, x, y)
    k.same('options are not modified', o, given)
    k.eq('concentration', k.get(h, 'c'), c)


def collapsed_halo(k, lc, s):
    from pyHalo.Halos.HaloModels.core_collapsed_halo import CoreCollapsedHalo, CoreCollapsedHaloBH
    bh = k.choice('black hole', [False, True])
    h, m, z, sub = build(k, CoreCollapsedHaloBH if bh else CoreCollapsedHalo, lc, s, sub=k.choice('subhalo', [True, False]), args={})
    # any components
    u = lambda n: k.real(n, Real(0.01, 3))
    if bh:
        h._profile_args = (u('Einstein radius'), u('scale'), u('deflection'), u('scale 2'), u('truncation'))
    else:
        h._profile_args = (u('inner deflection'), u('scale'), u('inner scale'), 2.5, 4.0, u('deflection'), u('scale 2'), u('truncation'))
    return bh, h, m, z, sub


def ray(k, bh, kw):
    """deflection by a collapsed halo centered on the origin, as a function of the angle"""
    from lenstronomy.LensModel.Profiles.core_collapsed_halo_bh import CoreCollapsedHaloBH
    from lenstronomy.LensModel.Profiles.core_collapsed_halo import CoreCollapsedHalo
    if bh:
        p, a = CoreCollapsedHaloBH(), [kw[n] for n in ('Rs_outer', 'theta_E_inner', 'alpha_Rs_outer', 'r_trunc')]
    else:
        p, a = CoreCollapsedHalo(), [kw[n] for n in ('Rs_inner', 'Rs_outer', 'alpha_Rs_inner', 'alpha_Rs_outer', 'r_trunc', 'gamma_inner', 'gamma_outer')]
    return lambda x: k.run(p.derivatives, x, 0, *a)[0]


@contract('collapsed halos as lenses', ['CoreCollapsedHalo.component_density_profile_3d', 'CoreCollapsedHalo.density_profile_3d', 'CoreCollapsedHalo.deflection_angle',
                                        'CoreCollapsedHalo.kappa', 'CoreCollapsedHaloBH.deflection_angle', 'CoreCollapsedHaloBH.logarithmic_profile_slope'])
def collapsed_lens(k):
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw as P
    zs = source(k)
    lc, s = world(k, zs)
    bh, h, m, z, sub = collapsed_halo(k, lc, s)
    h, x, y, norm = history(k, h, lc)
    kw = k.get(h, 'lenstronomy_params')[0][0]
    keep = dict(kw)
    r = k.real('r', Real(0.01, 20))
    alpha = ray(k, bh, kw)
    k.eq('deflection', k.run(h.deflection_angle, r), alpha(r))
    R = k.arr([r, r * 1.5, r * 2])
    if k.sym:
        k.same('convergence', k.run(h.kappa, R), k.run(kappa, alpha, R / s['kpa'](z)))
    else:
        R = r * np.linspace(1, 1.01, 5)
        at_ = lambda e: alpha(R * e / s['kpa'](z)) * R * e
        k.check('convergence', np.allclose(k.run(h.kappa, R)[1:-1], ((at_(1 + 1e-5) - at_(1 - 1e-5)) / 2e-5 / R / (R / s['kpa'](z)) / 2)[1:-1], rtol=2e-2, atol=1e-6))
    if bh:
        k.check('no slope at a point mass', k.call(h.logarithmic_profile_slope, r).raised(Exception))
    else:
        kpa, sc = parts(k, lc, s, z, zs)
        split = k.get(h, 'lenstronomy_params_split')[0]
        i, o = split
        inner = sc / kpa * k.run(P().density_lens, r / kpa, i['Rs'], i['alpha_Rs'], i['gamma_inner'], i['gamma_outer'])
        outer = sc / kpa * k.run(TNFW().density, r / kpa, o['Rs'], k.run(TNFW().alpha2rho0, o['alpha_Rs'], o['Rs']), o['r_trunc'])
        got = k.run(h.component_density_profile_3d, r)
        k.eq('inner density', got[0], inner)
        k.eq('outer density', got[1], outer)
        k.eq('density', k.run(h.density_profile_3d, r), inner + outer)
        k.check('lens model not modified', set(i) == {'alpha_Rs', 'Rs', 'gamma_inner', 'gamma_outer', 'center_x', 'center_y'} and 'alpha_Rs' in o)
    k.same('joint lens model not modified', k.get(h, 'lenstronomy_params')[0][0], keep)


@contract('projected mass of collapsed halos', ['CoreCollapsedHalo.mass_2d', 'CoreCollapsedHalo.kappa'], seeds=40)
def collapsed_mass(k):
    zs = source(k)
    lc, s = world(k, zs)
    bh, h, m, z, sub = collapsed_halo(k, lc, s)
    kpa, sc = parts(k, lc, s, z, zs)
    alpha = ray(k, bh, k.get(h, 'lenstronomy_params')[0][0])
    R = k.choice('inside', ['r200', 'given'])
    k.begin()
    r200 = nfw(k, lc, s, m, z, sub, h)[3]
    Rv = r200 if R == 'r200' else k.real('R', Real(0.1, 100))
    got = k.run(h.mass_2d, 'r200' if R == 'r200' else Rv)
    k.eq('projected mass', got, sc * k.run(disk, alpha, kpa, Rv, 1000 if k.sym else 4000), rtol=None if k.sym else 0.02)
    if not k.sym:
        k.eq('more steps', k.run(h.mass_2d, 'r200' if R == 'r200' else Rv, 4000), sc * disk(alpha, kpa, Rv, 4000))


@contract('age of collapsed halos', ['CoreCollapsedHalo.halo_effective_age', 'CoreCollapsedHalo.t_over_tc', 'CoreCollapsedHalo.sidm_timescale'])
def collapsed_age(k):
    from pyHalo.Halos.HaloModels.core_collapsed_halo import CoreCollapsedHalo
    lc, s = world(k)
    tc, lam = k.real('collapse time', Real(0.5, 100)), k.real('lambda', Real(0.1, 10))
    h, m, z, sub = build(k, CoreCollapsedHalo, lc, s, sub=k.choice('subhalo', [True, False]), args=dict(sidm_timescale=tc, lambda_t=lam))
    zi = s['zi'](m)
    if sub and k.choice('infall', ['drawn', 'given']) == 'given':
        zi = k.real('z_infall', Real(0.1, 12))
        k.run(h.set_infall_redshift, zi)
    k.begin()
    age = ages(k, s, z, zi, sub, lam)
    k.eq('effective age', k.get(h, 'halo_effective_age'), age)
    k.eq('collapse time', k.get(h, 'sidm_timescale'), tc)
    k.eq('age over collapse time', k.get(h, 't_over_tc'), age / tc)
