"""converting halos of a cold dark matter realization to cored and collapsed halos"""
import inspect
import numpy as np
from engine.api import contract
from engine.kit import Real, Int, Str, Build
from .common import halos, carried_over, realization, lens_cosmo, posgen
from .halolib import classes, world, truncation, build, nfw, ages, F
from .specs.extensions import collapsing, from_times, from_cross_sections, each, some

PROPERTY = dict(
    title='Conversion to self-interacting dark matter changes the profiles only',
    statement="""Converting a truncated halo keeps its mass, place, redshift, tag, host or field status, concentration and truncation radius, and for subhalos
    infall redshift and bound mass. Without a time scale it becomes a cored halo with its mass inside r200 or, if asked, a composite one with its
    mass inside r200 and a multiple of its mass inside the radius of the matching slope, or with a black hole. With a collapse time, young halos
    (below the cut for evolving halos, below the collapse threshold otherwise) stay as they are, older ones are converted with the collapse probability;
    the age of subhalos counts the scaled time since infall. Converting a realization does this for every truncated halo with the collapse time drawn for
    its mass bin or computed from the cross section there, refuses halos outside all bins, and keeps the order, all other halos and the settings. Halos
    collapse by mass with the probability of their range, subhalos and field halos apart; exactly the requested halos become collapsed or cored.""",
    over=['inputs', 'histories'],
    forall='all realizations, mass bins, time scales and scatters, cross sections, probabilities, thresholds, random draws, index lists, profile options',
    tests='the tests convert realizations with fixed bins and check that it runs',
    files=['pyHalo/realization_extensions.py', 'pyHalo/Halos/lens_cosmo.py'],
    mechanism=[('RealizationExtensions.toSIDM_single_halo', 'pyHalo/realization_extensions.py'),
               ('RealizationExtensions.toSIDM_from_timescale, toSIDM_from_cross_section, toSIDM_halo_list', 'pyHalo/realization_extensions.py'),
               ('RealizationExtensions.core_collapse_by_mass, add_core_collapsed_halos, add_cored_halos', 'pyHalo/realization_extensions.py'),
               ('LensCosmo.sidm_collapse_timescale', 'pyHalo/Halos/lens_cosmo.py')],
)


def observed(k, h, args):
    """what a halo is, as seen from outside, with these of its options"""
    o = k.get(h, 'args_profile')
    out = dict(kind=type(h).__name__, mdef=h.mdef, mass=h.mass, x=h.x, y=h.y, r3d=h.r3d, z=h.z, tag=h.unique_tag, sub=h.is_subhalo, c=k.get(h, 'c'),
               z_eval=k.get(h, 'z_eval'), nfw=list(k.get(h, 'nfw_params')), args={q: o[q] for q in args}, rescaled=k.get(h, 'rescale_norm'))
    if h.is_subhalo:
        out.update(bound=k.get(h, 'bound_mass'), zi=k.get(h, 'z_infall'))
    return out


def truncated(k, lc, s, more=('fresh', 'read', 'rescaled')):
    """a truncated halo with some history"""
    import pyHalo.Halos.HaloModels.TNFW as T
    sub = k.choice('subhalo', [False, True])
    rm = k.fn('matching radius', posgen(k, 0.05, 10))
    k.override(T.TNFWFieldHalo.log_derivative_inverse, lambda *a: rm(*a[-3:]))
    h, m, z, sub = build(k, classes()['TNFWSubhalo' if sub else 'TNFWFieldHalo'], lc, s, sub=sub, trunc=truncation(k, s))
    zi = s['zi'](m)
    hist = k.choice('history', list(more) + ['infall given'] * sub)
    if hist == 'infall given':
        zi = k.real('z_infall', Real(0.5, 12))
        k.run(h.set_infall_redshift, zi)
    elif hist == 'rescaled':
        k.run(h.rescale_normalization, k.real('factor', F()))
    elif hist == 'read':
        k.get(h, 'lenstronomy_params')
    return h, m, z, zi, sub, rm


def converter(k, lc):
    """converts single halos"""
    from pyHalo.realization_extensions import RealizationExtensions as X
    return k.run(X, k.obj(lens_cosmo=lc))


def like(k, h, cls, args, c):
    """a halo of another class that keeps what a conversion must keep"""
    new = k.run(cls, h.mass, h.x, h.y, h.r3d, h.z, h.is_subhalo, h.lens_cosmo, args, None, k.obj(nfw_concentration=lambda *a, **kw: c), h.unique_tag)
    if h.is_subhalo:
        k.run(new.set_infall_redshift, k.get(h, 'z_infall'))
        k.run(new.set_bound_mass, k.get(h, 'bound_mass'))
    return new


def composite(k, h, rm, gamma, scale, slope, black_hole=False):
    """options of a composite halo with the masses of a truncated halo"""
    rs, r200 = k.get(h, 'nfw_params')[1:]
    rt = k.get(h, 'profile_args')[1]
    r = rm(slope, rs, rt)
    return dict(gamma_inner=2.6 if black_hole else gamma, gamma_outer=6.0, rt_kpc=rt, Rs_inner_kpc=r, r_match_kpc=r,
                m_target_R=scale * k.run(h.mass_3d, r), m_target_r200=k.run(h.mass_3d, r200))


def cored(k, h, x):
    return dict(x_core_halo=x, mass_conservation=k.run(h.mass_3d, 'r200'), rt_kpc=k.get(h, 'profile_args')[1])


@contract('without a time scale', ['RealizationExtensions.toSIDM_single_halo'], timeout=8.0)
def static(k):
    import pyHalo.Halos.HaloModels.core_collapsed_halo as C
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloParametric
    lc, s = world(k)
    h, m, z, zi, sub, rm = truncated(k, lc, s)
    ext = converter(k, lc)
    prof = k.choice('profile', ['default', 'TNFWC', 'CC_COMPOSITE', 'other'])
    k.begin()
    if prof == 'other':
        k.check('unknown profile refused', k.call(ext.toSIDM_single_halo, h, None, None, 0.5, halo_profile='NFW').raised(ValueError))
        return
    if prof == 'CC_COMPOSITE':
        g = k.choice('inner slope', ['default', 'given', 'black hole'])
        gamma = dict(default=2.6, given=2.2)[g] if g != 'black hole' else -1.0
        o = {} if g == 'default' else dict(gamma_inner=gamma, scale_match_r=k.real('scale', Real(0.5, 4)), log_slope_match=k.real('slope', Real(-2.5, -1.2)))
        cls, args = (C.CoreCollapsedHaloBH if g == 'black hole' else C.CoreCollapsedHalo), composite(k, h, rm, gamma, o.get('scale_match_r', 1.6), o.get('log_slope_match', -1.9), g == 'black hole')
        got = k.run(ext.toSIDM_single_halo, h, halo_profile=prof, **o)
    else:
        x = k.real('core size', Real(0.01, 1))
        cls, args = TNFWCHaloParametric, cored(k, h, x)
        got = k.run(ext.toSIDM_single_halo, h, x_core_halo=x, **({} if prof == 'default' else {'halo_profile': prof}))
    want = like(k, h, cls, args, s['cfn'](m, zi if sub else z))
    k.same('converted halo', observed(k, got, args), observed(k, want, args))
    k.check('drawn at most once', len(s['asked']) <= 1)


@contract('with a collapse time', ['RealizationExtensions.toSIDM_single_halo'], timeout=8.0, budget=90)
def timed(k):
    import pyHalo.Halos.HaloModels.core_collapsed_halo as C
    import pyHalo.Halos.HaloModels.NFW_core_trunc as E
    lc, s = world(k)
    h, m, z, zi, sub, rm = truncated(k, lc, s, ['fresh', 'rescaled'])
    ext = converter(k, lc)
    mode = k.choice('conversion', ['evolving', 'evolving by default', 'cored', 'composite', 'black hole', 'age given', 'other'])
    tc, lam = k.real('collapse time', Real(0.5, 50)), k.real('scaling', Real(0.2, 5))
    o = dict(subhalo_evolution_scaling=lam)
    given = k.choice('limits', ['default', 'given'])
    cut, start, p = 0.15, 1.0, 1.0
    if given == 'given':
        cut, start, p = k.real('cut', Real(0, 1)), k.real('threshold', Real(0, 2)), k.real('probability', Real(0, 1, pool=(0.0, 1.0, 0.5)))
        o.update(t_over_tc_cut=cut, t_over_tc_collapse_threshold=start, collapse_probability=p)
    k.begin()
    if mode == 'other':
        k.check('unknown profile refused', k.call(ext.toSIDM_single_halo, h, tc, lam, halo_profile='NFW').raised(ValueError))
        return
    limit = cut if mode in ('evolving', 'evolving by default', 'age given') else start
    if mode == 'age given':
        q = k.real('age over collapse time', Real(0.05, 3))
        k.assume(s['age'](z, 10) > 0)
        tc, lam = s['age'](z, 10) / q, 1.0
        o.update(t_over_tc=q)
        del o['subhalo_evolution_scaling']
    else:
        o.update(t_c=tc)
    if mode in ('evolving', 'evolving by default', 'age given'):
        cls = E.TNFWCHaloEvolving
        args = dict(sidm_timescale=tc, lambda_t=lam if sub else 1.0, **{n: v for n, v in cored(k, h, 0.1).items() if n != 'x_core_halo'})
        if mode == 'evolving':
            o.update(halo_profile='TNFWC', evolving_profile=True)
    elif mode == 'cored':
        x = k.real('core size', Real(0.01, 1))
        cls, args = E.TNFWCHaloParametric, cored(k, h, x)
        o.update(evolving_profile=False, x_core_halo=x)
    else:
        gamma = -1.0 if mode == 'black hole' else k.real('inner slope', Real(1.5, 2.9))
        scale, slope = k.real('scale', Real(0.5, 4)), k.real('slope', Real(-2.5, -1.2))
        cls = C.CoreCollapsedHaloBH if mode == 'black hole' else C.CoreCollapsedHalo
        args = composite(k, h, rm, gamma, scale, slope, black_hole=mode == 'black hole')
        args.update(sidm_timescale=tc, lambda_t=lam if sub else 1.0)
        o.update(halo_profile='CC_COMPOSITE', gamma_inner=gamma, scale_match_r=scale, log_slope_match=slope, evolving_profile=k.choice('evolving', [True, False]))
    want = like(k, h, cls, args, s['cfn'](m, zi if sub else z))
    got = k.run(ext.toSIDM_single_halo, h, **o)
    age = ages(k, s, z, zi, sub, lam)
    young = age / tc < limit
    if young:
        k.check('young halos stay', got is h)
        k.check('nothing drawn', len(k.draws) == 0)
    else:
        k.check('one draw', len(k.draws) == 1)
        if k.std(0, 'U') <= p:
            k.same('converted halo', observed(k, got, args), observed(k, want, args))
        else:
            k.check('not collapsed', got is h)
    k.eq('age over collapse time', k.get(got, 't_over_tc'), age / tc)
    k.eq('effective age', k.get(got, 'halo_effective_age'), age)
    k.check('infall drawn at most once', len(s['asked']) <= 1)


def stand_in(k):
    """the conversion of one halo replaced by a halo that records what was asked"""
    import pyHalo.realization_extensions as R
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
    sig = inspect.signature(R.RealizationExtensions.toSIDM_single_halo)

    def convert(ext, halo, *a, **kw):
        b = sig.bind(ext, halo, *a, **kw)
        b.apply_defaults()
        o = {n: v for n, v in b.arguments.items() if n not in ('self', 'halo')}
        return k.run(TNFWCHaloEvolving, halo.mass, halo.x, halo.y, halo.r3d, halo.z, halo.is_subhalo, None, o, None, None, halo.unique_tag)
    k.override(R.RealizationExtensions.toSIDM_single_halo, convert)
    return lambda h, **kw: convert(None, h, **kw)


def catalog(k, lc, **more):
    return halos(k, const=dict(_lens_cosmo=lc), **more)


def options(k, default, **more):
    """conversion options: the defaults of the function or others"""
    o = dict(x_core_halo=None, collapse_probability=1.0, halo_profile='TNFWC', gamma_inner=2.5, scale_match_r=2.0, log_slope_match=-2.0, t_over_tc_collapse_threshold=1.0)
    if default:
        return {}, dict(o, evolving_profile=True)
    o = dict(x_core_halo=k.real('core size', Real(0.01, 1)), collapse_probability=k.real('probability', Real(0, 1)), halo_profile='CC_COMPOSITE',
             gamma_inner=k.real('inner slope', Real(1.5, 2.9)), scale_match_r=k.real('scale', Real(0.5, 4)), log_slope_match=k.real('slope', Real(-2.5, -1.2)),
             t_over_tc_collapse_threshold=k.real('threshold', Real(0, 2)))
    return dict(o, evolving_SIDM_profile=False), dict(o, evolving_profile=False)


def outside(k, hs, bins):
    """some halo is in no mass bin"""
    return k.exists(lambda h: k.And(*[k.Or(k.log10(h.mass) < b[0], k.log10(h.mass) >= b[1]) for b in bins]), k.parts(hs))


def bins_of(k):
    b = [k.real('edge %d' % i, Real(4.5, 10.5)) for i in range(3)]
    return [[b[0], b[1]], [b[1], b[2]]]


def timescales(k, scatter, default):
    from pyHalo.realization_extensions import RealizationExtensions as X
    lc = lens_cosmo(k)
    convert = stand_in(k)
    hs = catalog(k, lc, mdef=Str('TNFW', 'PT_MASS'))
    r = realization(k, hs, lc)
    bins = bins_of(k)
    means = [k.real('time %d' % i, Real(-1, 3)) for i in range(2)]
    sigmas = [k.real('scatter %d' % i, Real(0.01, 1)) for i in range(2)] if scatter else None
    lam = k.real('scaling', Real(-1, 1))
    asked, full = options(k, default)
    ext = k.run(X, r)
    k.begin()
    out = k.call(ext.toSIDM_from_timescale, bins, means, sigmas, lam, **asked)
    bad = outside(k, hs, bins)
    if out.raised(Exception):
        k.check('refused only if a halo is in no bin', bad)
        return
    k.check('every halo is in a bin', k.Not(bad))
    new = out.value
    want = k.replay(from_times, r.halos, bins, means, sigmas, lambda h, t: convert(h, t_c=t, subhalo_evolution_scaling=10 ** lam, **full))
    k.same('halos', new.halos, want)
    carried_over(k, 'converted', new, r)


@contract('with collapse times by mass', ['RealizationExtensions.toSIDM_from_timescale'], budget=150)
def fixed_times(k):
    timescales(k, False, False)


@contract('with scattered collapse times by mass', ['RealizationExtensions.toSIDM_from_timescale'], budget=150)
def scattered_times(k):
    timescales(k, True, True)


@contract('with cross sections by mass', ['RealizationExtensions.toSIDM_from_cross_section'], budget=150)
def cross_section(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    own = k.choice('time scale', ['given', 'default'])
    convert = stand_in(k)
    time, default = k.fn('given time', posgen(k, 0.1, 100)), k.fn('time', posgen(k, 0.1, 100))
    lc = lens_cosmo(k, sidm_collapse_timescale=default)
    rho, rs = k.fn('rhos', posgen(k, 1e3, 1e8)), k.fn('rs', posgen(k, 0.1, 10))
    hs = catalog(k, lc, mdef=Str('TNFW', 'PT_MASS'), nfw_params=Build(lambda h: (rho(h.mass), rs(h.mass), 1.0)))
    r = realization(k, hs, lc)
    bins = bins_of(k)
    logs = [k.real('cross section %d' % i, Real(-1, 3)) for i in range(2)]
    lam = k.real('scaling', Real(-1, 1))
    asked, full = options(k, own == 'default')
    if own == 'given':
        asked.update(sidm_timescale_function=time)
    ext = k.run(X, r)
    k.begin()
    out = k.call(ext.toSIDM_from_cross_section, bins, logs, lam, **asked)
    bad = outside(k, hs, bins)
    if out.raised(Exception):
        k.check('refused only if a halo is in no bin', bad)
        return
    k.check('every halo is in a bin', k.Not(bad))
    new = out.value
    want = k.run(from_cross_sections, r.halos, bins, logs, time if own == 'given' else default, lambda h, t: convert(h, t_c=t, subhalo_evolution_scaling=10 ** lam, **full))
    k.same('halos', new.halos, want)
    carried_over(k, 'converted', new, r)


@contract('collapse time for a cross section', ['LensCosmo.sidm_collapse_timescale'])
def essig(k):
    lc, s = world(k)
    rhos, rs, sig = k.real('rhos', Real(1e4, 1e9)), k.real('rs', Real(0.01, 50)), k.real('cross section', Real(0.1, 1000))
    k.begin()
    # 150 / 0.75 / (sigma rhos rs sqrt(4 pi G rhos)) in Gyr with the rounded constants of the code
    sec = 150 / 0.75 / (2.0889e-10 * sig * rhos * rs * k.sqrt(4 * np.pi * 4.3e-6 * rhos * 1.05e-33))
    k.eq('time scale', k.run(lc.sidm_collapse_timescale, rhos, rs, sig), sec * 3.171e-17, rtol=None if k.sym else 2e-3)


@contract('a list of halos', ['RealizationExtensions.toSIDM_halo_list'])
def halo_list(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    lc = lens_cosmo(k)
    convert = stand_in(k)
    r = realization(k, catalog(k, lc, size='n'), lc)
    hs = catalog(k, lc, name='g', size='m')
    ext = k.run(X, r)
    if k.choice('options', ['default', 'given']) == 'default':
        asked = {}
        full = dict(t_c=None, subhalo_evolution_scaling=None, x_core_halo=None, t_over_tc_cut=0.15, evolving_profile=True, collapse_probability=1.0, halo_profile='TNFWC',
                    gamma_inner=2.6, scale_match_r=1.6, log_slope_match=-1.9, t_over_tc=None)
    else:
        u = lambda n: k.real(n, Real(0.1, 2))
        asked = full = dict(t_c=u('tc'), subhalo_evolution_scaling=u('scaling'), x_core_halo=u('x'), t_over_tc_cut=u('cut'), evolving_profile=False, collapse_probability=u('p'),
                            halo_profile='CC_COMPOSITE', gamma_inner=u('gamma'), scale_match_r=u('scale'), log_slope_match=u('slope'), t_over_tc=u('t'))
    k.begin()
    new = k.run(ext.toSIDM_halo_list, hs, **asked)
    k.same('halos', new.halos, k.run(each, hs, lambda h: convert(h, **full)))
    carried_over(k, 'converted', new, r)


@contract('collapse by mass', ['RealizationExtensions.core_collapse_by_mass'], budget=150)
def by_mass(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    lc = lens_cosmo(k)
    hs = catalog(k, lc, mdef=Str('TNFW', 'PT_MASS'))
    r = realization(k, hs, lc)
    edge = lambda n: k.real(n, Real(4.5, 10.5))
    ranges = {True: [[edge('a'), edge('b')], [edge('c'), edge('d')]], False: [[edge('e'), edge('f')]]}
    f = k.fn('probability', Real(0, 1))
    prob = {True: [k.real('p', Real(0, 1)), k.real('q', Real(0, 1, pool=(0.0, 1.0)))], False: [lambda h: f(h.mass)]}
    ext = k.run(X, r)
    k.begin()
    k.check('one probability per range', k.call(ext.core_collapse_by_mass, ranges[True], ranges[False], prob[False], prob[False]).raised(Exception))
    k.check('one probability per range of field halos', k.call(ext.core_collapse_by_mass, ranges[True], ranges[False], prob[True], prob[True]).raised(Exception))
    got = k.run(ext.core_collapse_by_mass, ranges[True], ranges[False], prob[True], prob[False])
    k.same('indices', got, k.replay(collapsing, r.halos, ranges, prob))


@contract('requested halos collapse', ['RealizationExtensions.add_core_collapsed_halos'], budget=150)
def requested(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    lc = lens_cosmo(k)
    convert = stand_in(k)
    hs = catalog(k, lc)
    r = realization(k, hs, lc)
    wanted = k.list('index', k.size('requests', 0), Int(0, 8))
    prof = k.choice('profile', ['TNFWC', 'CC_COMPOSITE', 'other'])
    ext = k.run(X, r)
    k.begin()
    if prof == 'other':
        k.check('unknown profile refused', k.call(ext.add_core_collapsed_halos, wanted, halo_profile='NFW').raised(Exception))
        return
    full = dict(t_c=None, subhalo_evolution_scaling=1.0, x_core_halo=None, t_over_tc_cut=0.15, evolving_profile=False, collapse_probability=1.0, halo_profile=prof,
                gamma_inner=2.6, scale_match_r=1.6, log_slope_match=-1.9, t_over_tc=None)
    if prof == 'TNFWC':
        o = dict(x_core_halo=k.real('core size', Real(0.01, 1)))
        new = k.run(ext.add_core_collapsed_halos, wanted, **o)
    else:
        o = dict(gamma_inner=k.real('inner slope', Real(1.5, 2.9)), scale_match_r=k.real('scale', Real(0.5, 4)), log_slope_match=k.real('slope', Real(-2.5, -1.2)))
        new = k.run(ext.add_core_collapsed_halos, wanted, halo_profile=prof, **o)
    full.update(o)
    k.same('halos', new.halos, k.run(some, r.halos, wanted, lambda h: convert(h, **full)))
    carried_over(k, 'converted', new, r)


def bare(k, new, old, kept, conc=True):
    """a halo of another class that keeps what a collapsed halo must keep"""
    for q in ('mass', 'x', 'y', 'z', 'unique_tag') + kept:
        k.eq(q, getattr(new, q), getattr(old, q))
    k.check('host or field status', new.is_subhalo is old.is_subhalo)
    k.check('cosmology', new.lens_cosmo is old.lens_cosmo)
    if conc:
        k.eq('concentration', k.get(new, 'c'), k.get(old, 'c'))
    if old.is_subhalo:
        k.eq('infall redshift', k.get(new, 'z_infall'), k.get(old, 'z_infall'))
        k.eq('bound mass', k.get(new, 'bound_mass'), k.get(old, 'bound_mass'))


@contract('power-law and generalized profiles of collapsed halos', ['RealizationExtensions.add_core_collapsed_halos'], budget=90)
def power_law(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    import pyHalo.realization_extensions as R
    lc, s = world(k)
    prof = k.choice('profile', ['GNFW', 'SPL_CORE'])
    sub = k.choice('subhalo', [False, True])
    own = dict(a=1, log_slope_halo=-1.0, x_core_halo=0.5, gamma_inner=1.0, gamma_outer=3.0)
    given = dict(own)
    h, m, z, _ = build(k, classes()['TNFWSubhalo' if sub else 'TNFWFieldHalo'], lc, s, sub=sub, trunc=truncation(k, s), args=own)
    other = k.run(type(h), m, h.x, h.y, h.r3d, z, sub, lc, own, h._truncation_class, s['conc'], h.unique_tag)
    if sub:
        k.run(h.set_infall_redshift, k.real('z_infall', Real(0.5, 10)))
    if k.choice('read before', [True, False]):
        k.get(h, 'lenstronomy_params')
    r = realization(k, [other, h], lc)
    ext = k.run(X, r)
    o = dict(gamma_inner=k.real('inner slope', Real(0.5, 2.9)), gamma_outer=k.real('outer slope', Real(3.1, 5))) if prof == 'GNFW' else \
        dict(log_slope_halo=k.real('slope', Real(-2.9, -0.5)), x_core_halo=k.real('core size', Real(0.01, 1)))
    k.begin()
    new = k.run(ext.add_core_collapsed_halos, [1], halo_profile=prof, **o)
    k.check('others kept', len(new.halos) == 2 and new.halos[0] is other)
    g = new.halos[1]
    cls = {('GNFW', True): R.GeneralNFWSubhalo, ('GNFW', False): R.GeneralNFWFieldHalo, ('SPL_CORE', True): R.PowerLawSubhalo, ('SPL_CORE', False): R.PowerLawFieldHalo}[prof, sub]
    k.check('profile', type(g) is cls)
    bare(k, g, h, ('r3d',), prof == 'GNFW')
    for q, v in dict(own, **o).items():
        k.eq('option ' + q, k.get(g, 'args_profile')[q], v)
    k.same('options of the original not modified', own, given)
    carried_over(k, 'converted', new, r)


@contract('cored halos', ['RealizationExtensions.add_cored_halos'], budget=90)
def cored_halos(k):
    from pyHalo.realization_extensions import RealizationExtensions as X
    from pyHalo.Halos.HaloModels.NFW_core import CoreNFWHalo
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloParametric
    lc, s = world(k)
    prof = k.choice('profile', ['default', 'CNFW', 'TNFWC'])
    sub = k.choice('subhalo', [False, True])
    h, m, z, _ = build(k, classes()['TNFWSubhalo' if sub else 'TNFWFieldHalo'], lc, s, sub=sub, trunc=truncation(k, s))
    other = k.run(type(h), m, h.x, h.y, h.r3d, z, sub, lc, {'a': 1}, h._truncation_class, s['conc'], h.unique_tag)
    if sub:
        k.run(h.set_infall_redshift, k.real('z_infall', Real(0.5, 10)))
    if k.choice('read before', [True, False]):
        k.get(h, 'lenstronomy_params')
    first = k.choice('position', [0, 1])
    r = realization(k, [h, other] if first == 0 else [other, h], lc)
    ext = k.run(X, r)
    beta = k.real('core size', Real(0.01, 2))
    k.begin()
    new = k.run(ext.add_cored_halos, [first], beta, *([] if prof == 'default' else [prof]))
    k.check('others kept', len(new.halos) == 2 and new.halos[1 - first] is other)
    g = new.halos[first]
    if prof == 'TNFWC':
        args = cored(k, h, beta)
        want = like(k, h, TNFWCHaloParametric, args, k.get(h, 'c'))
        k.same('cored halo', observed(k, g, args), observed(k, want, args))
    else:
        k.check('profile', type(g) is CoreNFWHalo)
        bare(k, g, h, ())
        kw = k.get(g, 'lenstronomy_params')[0][0]
        rs = k.get(h, 'nfw_params')[1] / s['kpa'](z)
        k.eq('scale', kw['Rs'], k.round(rs, 10))
        k.eq('core size in units of the scale radius', kw['r_core'], k.round(rs * beta, 10))
    carried_over(k, 'converted', new, r)
