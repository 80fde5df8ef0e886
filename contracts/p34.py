"""evaluating many halos at once gives what each halo gives by itself"""
import numpy as np
from engine.api import contract
from engine.kit import Real, Bool
from .common import posgen
from .halolib import M, world
from .conclib import WIDTH, CODE, library, floor, power

PROPERTY = dict(
    title='Evaluating many halos at once gives what each halo gives by itself',
    statement="""The batched routines are a faster way to the same halos. For any list of halos, NFW parameters, concentrations, times since
    infall, truncation radii, density normalizations, bound masses and self-interacting profiles computed for all halos at once equal
    what each halo would compute by itself from its own mass, redshift, concentration model and truncation model. Where the single-halo path
    draws (infall redshift, scatter of concentrations, tidal mass loss), the batched path draws from the same distribution with the
    same limits, independently for each halo. Quantities a halo already has are kept, and halos of a kind the batch does not support,
    or with parameters or a truncation of their own, are left untouched.""",
    over=['inputs', 'configurations', 'histories'],
    forall='all lists of halos, masses, redshifts, concentration and truncation models, and anything computed beforehand',
    tests='the tests compare a few dozen homogeneous halos with one model',
    files=['pyHalo/Halos/batch_halo_util.py'],
    mechanism=[('nfw_params_physical_vectorized, batch_nfw_concentration, galacticus_mass_loss_vectorized, compute_r_te_and_f_t_vectorized',
                'pyHalo/Halos/batch_halo_util.py'),
               ('precompute_* and precompute_realization', 'pyHalo/Halos/batch_halo_util.py')],
)

C = lambda: Real(1.2, 60, pool=(2.0, 10.0))
ZH = lambda: Real(0.02, 6, pool=(0.3, 0.5, 0.9))


def columns(k):
    n = k.size('n', 1)
    i = k.int('i', 0, 8)
    k.assume(i < n)
    return n, i


@contract('NFW parameters', ['nfw_params_physical_vectorized', 'LensCosmo.NFW_params_physical'])
def params(k):
    from pyHalo.Halos.batch_halo_util import nfw_params_physical_vectorized as f
    lc, s = world(k)
    n, i = columns(k)
    m, c, z = k.array('m', n, M()), k.array('c', n, C()), k.array('z', n, ZH())
    how = k.choice('normalization', ['default', 'NFW', 'pseudo', 'each'])
    flags = k.array('pseudo', n, Bool()) if how == 'each' else None
    k.begin()
    got = k.run(f, lc, m, c, z, *([] if how == 'default' else [how == 'pseudo'] if how != 'each' else [flags]))
    mine = False if how in ('default', 'NFW') else True if how == 'pseudo' else k.at(flags, i)
    if how == 'each':
        mine = True if mine else False
    exp = k.run(lc.NFW_params_physical, k.at(m, i), k.at(c, i), k.at(z, i), mine)
    for j, name in enumerate(['central density', 'scale radius', 'virial radius']):
        k.check('one %s for each' % name, k.Eq(k.len(got[j]), n))
        k.eq(name, k.at(got[j], i), exp[j])


def relation(k, which):
    """a concentration model, and the class it is suppressed from (or itself)"""
    import pyHalo.Halos.concentration as c
    lib = library(k)
    s, w = k.bool('scatter'), k.real('width', WIDTH())
    if which == 'diemer' or which == 'ludlow':
        cls, num = (c.ConcentrationDiemerJoyce, 'diemer19') if which == 'diemer' else (c.ConcentrationLudlow, 'ludlow16')
        f = k.run(cls, lib.cosmo, s, w, use_interpolation_table=False)
        return f, lambda m, z: lib.raw(m * lib.cosmo.h, z, CODE[num], CODE['200c']), lambda m, z: 1.0, s, w
    if which == 'peak':
        f = k.run(c.ConcentrationPeakHeight, lib.cosmo, 20.0, -0.3, 0.8, s, w)
        return f, lambda m, z: power(k, lib, 20.0, -0.3, 0.8, 10 ** 8, 'PEAK_HEIGHT', m, z), lambda m, z: 1.0, s, w
    log_mc = k.real('log_mc', Real(4, 10, pool=(7.0,)))
    a = k.real('a', Real(-2, 2))
    f = k.run(c.ConcentrationWDMHyperbolic, lib.cosmo, c.ConcentrationDiemerJoyce, log_mc, a, 0.5, scatter=s, scatter_dex=w,
              kwargs_cdm={'use_interpolation_table': False})
    return f, lambda m, z: lib.raw(m * lib.cosmo.h, z, CODE['diemer19'], CODE['200c']), \
        lambda m, z: 0.5 * (1 + k.tanh((k.log10(m / 10 ** log_mc) - a) / (2 * 0.5))), s, w


@contract('concentrations', ['batch_nfw_concentration'])
def concentrations(k):
    from pyHalo.Halos.batch_halo_util import batch_nfw_concentration as batch
    which = k.choice('relation', ['diemer', 'ludlow', 'peak', 'suppressed'])
    f, med, sup, s, w = relation(k, which)
    n = k.size('n', 0)
    ms, z = k.array('ms', n, M()), k.real('z', ZH())
    quiet = k.choice('median wanted', [None, False, True])
    k.begin()
    got = k.run(batch, f, ms, z, *([] if quiet is None else [quiet]))
    if k.And(s, not quiet):
        exp = k.amap(lambda q: floor(k, floor(k, k.exp(k.log(med(q[0], z)) + w * q[1])) * sup(q[0], z)), k.zip(ms, k.std(0, 'Z')))
    else:
        exp = k.amap(lambda m: floor(k, floor(k, med(m, z)) * sup(m, z)), ms)
    k.same('as each halo computes it', got, exp)
    if not s or quiet:
        k.check('no draws', len(k.draws) == 0)


@contract('other concentration models', ['batch_nfw_concentration'])
def other_concentrations(k):
    import pyHalo.Halos.concentration as c
    from pyHalo.Halos.batch_halo_util import batch_nfw_concentration as batch
    n = k.size('n', 0)
    ms, z, c0 = k.array('ms', n, M()), k.real('z', ZH()), k.real('c0', C())
    own = k.fn('own', C())
    k.begin()
    k.same('constant', k.run(batch, c.ConcentrationConstant('COSMO', c0), ms, z), k.amap(lambda m: c0, ms))
    named = k.obj(name='MINE', nfw_concentration=lambda m, z: own(m, z))
    k.same('models of the user', k.run(batch, named, ms, z), k.amap(lambda m: own(m, z), ms))
    k.same('models without a name', k.run(batch, k.obj(nfw_concentration=lambda m, z: own(m, z)), ms, z), k.amap(lambda m: own(m, z), ms))


@contract('concentrations of a list of halos', ['precompute_concentrations'])
def list_concentrations(k):
    from pyHalo.Halos.batch_halo_util import precompute_concentrations as pre
    zs = k.choice('redshifts', [(0.5, 0.5, 0.5), (0.5, 0.5, 0.9), (0.3, 0.5, 0.9), (0.9, 0.5, 0.9)])
    which = k.choice('models', [(0, 0, 0), (0, 1, 0), (0, 1, 1)])
    has = k.choice('already known', [None, 0, 1, 2])
    med = [k.fn('median%d' % j, C()) for j in range(2)]
    asked = []

    def model(j):
        def conc(m, z):
            asked.append(j)
            return med[j](m, z)
        return k.obj(name='MINE', nfw_concentration=conc)
    models = [model(0), model(1)]
    c0 = k.real('c0', C())
    hs = []
    for i in range(3):
        h = k.obj(mass=k.real('m%d' % i, M()), z_eval=zs[i], _concentration_class=models[which[i]])
        if has == i:
            h._c = c0
        hs.append(h)
    k.begin()
    k.run(pre, hs)
    for i in range(3):
        k.eq('the concentration it would compute itself', hs[i]._c, c0 if has == i else med[which[i]](hs[i].mass, zs[i]))
    k.check('each computed once', len(asked) == (3 if has is None else 2))
    k.run(pre, hs)
    k.check('computed once', len(asked) == (3 if has is None else 2))
    k.run(pre, [])


@contract('infall redshifts', ['_sample_infall_redshifts'])
def infall(k):
    import pyHalo.Halos.accretion as a
    from pyHalo.Halos.batch_halo_util import _sample_infall_redshifts as sample
    which = k.choice('model', ['InfallDistributionHybrid', 'InfallDistributionDirect', 'InfallDistributionClusterDirect',
                               'InfallDistributionDirectMilkyWay200kpc', 'own', 'none'])
    zl = k.real('z_lens', Real(0.05, 2, pool=(0.5,)))
    lm = k.real('log_m_host', Real(14, 15, pool=(14.0,)))
    n = k.size('n', 1)
    i = k.int('i', 0, 8)
    k.assume(i < n)
    ms = k.array('ms', n, Real(1e5, 1e14, pool=(1e6, 1e8, 1e10), log=True))
    own = k.fn('own', Real(0.5, 10))
    f = None if which == 'none' else k.obj(name='own') if which == 'own' else k.run(getattr(a, which), zl, lm)
    lc = k.obj(z_accreted_from_zlens=lambda m: own(m), z_lens=zl)
    k.begin()
    got = k.run(sample, f, ms, lc)
    k.check('one for each', k.Eq(k.len(got), n))
    if which in ('InfallDistributionHybrid', 'InfallDistributionDirect'):
        m = k.at(ms, i)
        r = k.min(k.max(m / f._m_host, 1e-5), 10 ** -0.5)
        mu, sig = k.run(f.z_inf_to_z_host_mean, r), k.run(f.z_inf_to_z_host_std, r)
        k.check('drawn together', len(k.draws) == 1)
        lo, hi = k.draws[0].params[:2]
        k.eq('lower limit', mu + sig * k.at(lo, i), 0, atol=1e-9)
        k.eq('upper limit', mu + sig * k.at(hi, i), 15, rtol=1e-9)
        k.eq('truncated normal', k.at(got, i), zl + mu + sig * k.at(k.std(0, 'truncnorm'), i))
    else:
        k.eq('as each halo draws it', k.at(got, i), own(k.at(ms, i)))
        k.check('nothing else drawn', len(k.draws) == 0)


@contract('tidal mass loss', ['galacticus_mass_loss_vectorized'])
def loss(k):
    import pyHalo.Halos.galacticus_truncation.interp_mass_loss as iml
    from pyHalo.Halos.batch_halo_util import galacticus_mass_loss_vectorized as batch
    cls = k.choice('model', [iml.InterpGalacticus, iml.InterpGalacticusZinfall])
    fa, fb = k.fn('a', Real(-3, 3)), k.fn('b', posgen(k, 0.3, 3))
    f = k.new(cls, _a_interp=lambda p: fa(p[:, 0], p[:, 1], p[:, 2]), _b_interp=lambda p: fb(p[:, 0], p[:, 1], p[:, 2]))
    tmax = 9.5 if cls is iml.InterpGalacticusZinfall else 8.1
    n = k.size('n', 1)
    i = k.int('i', 0, 8)
    k.assume(i < n)
    x = k.array('log10c', n, Real(-0.5, 3.5, pool=(0.3, 1.0, 2.6)))
    y = k.array('t', n, Real(-1, 15, pool=(0.0, 0.001, 8.1, 9.5)))
    ch = k.real('c_host', Real(1, 15, pool=(4.0, 6.0, 8.0, 8.5, 9.0)))
    k.begin()
    got = k.run(batch, f, x, y, ch)
    k.check('one draw for each', k.And(len(k.draws) == 1, k.Eq(k.len(got), n)))
    # the single-halo model, with a draw of its own: the same distribution
    at = []
    one = k.new(cls, _a_interp=lambda p: [at.append(p), fa(*p)][1], _b_interp=lambda p: fb(*p))
    k.eq('single halo', k.run(one, k.at(x, i), k.at(y, i), ch), k.min(k.sinh((k.std(1, 'Z') - fa(*at[-1])) / fb(*at[-1])), 0))
    k.eq('as the halo draws it', k.at(got, i), k.min(k.sinh((k.at(k.std(0, 'Z'), i) - fa(*at[-1])) / fb(*at[-1])), 0))


@contract('times since infall', ['precompute_infall_times', 'Halo.time_since_infall'])
def times(k):
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Halos.HaloModels.NFW import NFWSubhhalo
    age = k.fn('age', Real(0, 14))
    co = k.new(Cosmology, _age_interp=lambda z: age(z), _cache_age={}, astropy=k.obj(age=lambda z: k.obj(value=k.amap(age, z) if k.is_seq(z) else age(z))))
    drawn = k.fn('drawn', Real(0.5, 10))
    lc = k.obj(cosmo=co, z_accreted_from_zlens=lambda m: drawn(m))
    sub = [k.choice('kind%d' % i, [True, False]) for i in range(2)]
    has = [k.choice('known%d' % i, ['nothing', 'redshift', 'time']) for i in range(2)]
    mk = lambda: [k.run(NFWSubhhalo, ms[i], 0.0, 0.0, None, zs[i], sub[i], lc, {}, None, None, 0.5) for i in range(2)]
    ms = [k.real('m%d' % i, M()) for i in range(2)]
    zs = [k.real('z%d' % i, ZH()) for i in range(2)]
    zi = [k.real('zi%d' % i, Real(0.02, 10, pool=(0.5, 3.0))) for i in range(2)]
    t0 = k.real('t0', Real(0, 10))
    hs, ref = mk(), mk()
    for i in range(2):
        for h in (hs[i], ref[i]):
            if has[i] != 'nothing':
                h._z_infall = zi[i]
            if has[i] == 'time':
                h._time_since_infall = t0
    for i in range(2):
        z = zi[i] if has[i] != 'nothing' else drawn(ms[i])
        k.assume(age(zs[i]) >= age(z) if zs[i] <= z else True)     # younger at lower redshift: older universe
    k.begin()
    k.run(b.precompute_infall_times, hs, lc)
    for i in range(2):
        if sub[i]:
            k.eq('infall redshift', hs[i]._z_infall, k.get(ref[i], 'z_infall'))
            k.eq('time since infall', hs[i]._time_since_infall, k.get(ref[i], 'time_since_infall'))
        elif has[i] == 'nothing':
            k.check('field halos left alone', not hasattr(hs[i], '_z_infall') and not hasattr(hs[i], '_time_since_infall'))


@contract('bound masses', ['precompute_tnfw_bound_masses', 'TNFWSubhalo.bound_mass'])
def bound(k):
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo
    lc, s = world(k)
    m, c, rt, f = k.real('m', M()), k.real('c', C()), k.pos('rt', 0.05, 30), k.real('norm', Real(0.05, 1, pool=(1.0,)))
    rs = k.pos('rs', 0.05, 30)
    sub = k.bool('subhalo')
    has = k.bool('known')
    b0 = k.real('b0', M())

    def mk():
        h = k.run(TNFWSubhalo if sub else TNFWFieldHalo, m, 0.0, 0.0, None, 0.5, sub, lc, {}, None, None, 0.5)
        h._c, h._profile_args, h._nfw_params, h._rescale_norm = c, (c, rt), [1.0, rs, 2.0], f
        return h
    h, ref = mk(), mk()
    if has:
        h._bound_mass = b0
    k.begin()
    k.run(b.precompute_tnfw_bound_masses, [h])
    if has:
        k.eq('known values kept', h._bound_mass, b0)
    elif sub:
        k.eq('the mass it would compute itself', h._bound_mass, k.get(ref, 'bound_mass'), rtol=1e-6)
    else:
        k.check('field halos left alone', not hasattr(h, '_bound_mass'))
    k.eq('nothing rescaled', h._rescale_norm, f)


AGE = lambda: Real(0, 14)


def aged(k, s):
    """ages in the stand-in cosmology; precomputed halos use the table of ages"""
    age = k.fn('age', AGE())
    co = s['co']
    co._halo_age_interp = lambda z: age(z)
    co.halo_age = lambda z, zform=10: 0.0 if z > zform else age(z) - age(zform)
    co.astropy.age = lambda z: k.obj(value=k.amap(age, z) if k.is_seq(z) else age(z))
    return age


@contract('galacticus subhalos', ['precompute_tnfw_subhalos', 'TruncationGalacticus.calculate_mbound', 'TruncationGalacticusZinfall.calculate_mbound',
                                  'TruncationGalacticus.truncation_radius_from_bound_mass', 'TruncationGalacticusZinfall.truncation_radius_from_bound_mass'])
def galacticus(k):
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo
    lc, s = world(k)
    age = aged(k, s)
    name = k.choice('model', ['TruncationGalacticus', 'TruncationGalacticusZinfall', 'TruncationGalacticusKeeley24', 'TruncationMultipleRS'])
    kinds = k.choice('second halo', ['fresh', 'field halo', 'has a profile', 'has a bound mass'])
    loss_ = k.fn('loss', Real(-3, 0))
    R, F = k.fn('r_te', posgen(k, 0.05, 30)), k.fn('f_t', Real(0.05, 1))
    asked = []

    def losses(interp, log10c, t, chost):
        asked.append((interp, chost))
        return k.amap(lambda q: loss_(q[0], q[1]), k.zip(log10c, t))

    def radii(mb, m, r200, c):
        e = lambda f: k.amap(lambda q: f(q[0], q[1], q[2], q[3]), k.zip(mb, m, r200, c))
        return e(R), e(F)
    k.override(b.galacticus_mass_loss_vectorized, losses)
    k.override(b.compute_r_te_and_f_t_vectorized, radii)
    trunc = k.obj(name=name, _chost='C_HOST', _mass_loss_interp='INTERP')
    ms = [k.real('m%d' % i, M()) for i in range(2)]
    mk = lambda i, cls, sub: k.run(cls, ms[i], 0.0, 0.0, None, 0.5, sub, lc, {}, trunc, s['conc'], 0.5)
    hs = [mk(0, TNFWSubhalo, True), mk(1, TNFWFieldHalo if kinds == 'field halo' else TNFWSubhalo, kinds != 'field halo')]
    c1, mb1 = k.real('c1', C()), k.real('mb1', M())
    if kinds == 'fresh':
        hs[1]._c = c1
    if kinds == 'has a profile':
        hs[1]._profile_args = 'PROFILE'
    if kinds == 'has a bound mass':
        hs[1]._c, hs[1]._mbound_galacticus_definition = c1, mb1
    zi = [s['zi'](m) for m in ms]
    for z in zi:
        k.assume(age(0.5) >= age(z))
    k.begin()
    out = k.call(b.precompute_tnfw_subhalos, hs, trunc)
    if name not in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
        k.check('other models refused', out.raised(Exception))
        k.check('no profile for them', not hasattr(hs[0], '_profile_args'))
        return
    k.check('done', out.ok)
    for i in range(2):
        h = hs[i]
        if i == 1 and kinds == 'field halo':
            k.check('field halos untouched', not any(hasattr(h, q) for q in ('_profile_args', '_nfw_params', '_c', '_mbound_galacticus_definition')))
            continue
        if i == 1 and kinds == 'has a profile':
            k.check('profiles kept', h._profile_args == 'PROFILE' and not hasattr(h, '_nfw_params') and not hasattr(h, '_mbound_galacticus_definition'))
            k.eq('not rescaled again', h._rescale_norm, 1)
            continue
        c = s['cfn'](ms[0], zi[0]) if i == 0 else c1
        t = (age(0.5) - age(zi[i]) if 0.5 <= zi[i] else 0.0) if name == 'TruncationGalacticus' else zi[i] - lc.z_lens
        mb = mb1 if i == 1 and kinds == 'has a bound mass' else ms[i] * 10 ** loss_(k.log10(c), t)
        k.eq('infall redshift', k.get(h, 'z_infall'), zi[i])
        k.eq('concentration at infall', k.get(h, 'c'), c)
        k.eq('bound mass of the model', k.get(h, 'bound_mass_galacticus_definition'), mb)
        nfw = k.run(lc.NFW_params_physical, ms[i], c, zi[i], False)
        got = k.get(h, 'nfw_params')
        for j in range(3):
            k.eq('NFW parameters', got[j], nfw[j])
        a = k.get(h, 'profile_args')
        k.eq('profile: concentration', a[0], c)
        k.eq('profile: truncation radius', a[1], R(mb, ms[i], nfw[2], c))
        k.eq('normalization', h._rescale_norm, F(mb, ms[i], nfw[2], c))
    k.check('mass loss in the host of the model', asked == [('INTERP', 'C_HOST')])


@contract('truncated field halos', ['precompute_tnfw_field_halos', 'precompute_nfw_params'])
def field(k):
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo
    from pyHalo.Halos.tidal_truncation import TruncationRN, Multiple_RS
    lc, s = world(k)
    which = k.choice('model', ['RN', 'RS', 'other'])
    N = k.real('LOS norm', Real(20, 400, pool=(50.0, 200.0)))
    tau = k.real('tau', Real(0.5, 50))
    rt = k.fn('r_trunc', posgen(k, 0.05, 30))
    trunc = k.run(TruncationRN, lc, N) if which == 'RN' else k.run(Multiple_RS, lc, tau) if which == 'RS' else \
        k.obj(name='MINE', truncation_radius_halo=lambda h: rt(h.mass, h.z))
    second = k.choice('second halo', ['fresh', 'subhalo', 'has a profile'])
    ms, z = [k.real('m%d' % i, M()) for i in range(2)], k.real('z', ZH())
    c1 = k.real('c1', C())
    mk = lambda i, sub: k.run(TNFWSubhalo if sub else TNFWFieldHalo, ms[i], 0.0, 0.0, None, z, sub, lc, {}, trunc, s['conc'], 0.5)
    hs = [mk(0, False), mk(1, second == 'subhalo')]
    ref = [mk(0, False), mk(1, False)]
    hs[1]._c = ref[1]._c = c1
    if second == 'has a profile':
        hs[1]._profile_args = 'PROFILE'
    k.begin()
    k.run(b.precompute_tnfw_field_halos, hs, trunc)
    for i in range(2):
        if i == 1 and second != 'fresh':
            k.check('left alone', getattr(hs[1], '_profile_args', None) == ('PROFILE' if second == 'has a profile' else None))
            continue
        e, g = k.get(ref[i], 'profile_args'), hs[i]._profile_args
        k.eq('concentration', g[0], e[0])
        k.eq('truncation radius', g[1], e[1])
        e, g = k.get(ref[i], 'nfw_params'), hs[i]._nfw_params
        for j in range(3):
            k.eq('NFW parameters', g[j], e[j])


@contract('NFW parameters of halos', ['precompute_nfw_params', 'Halo.nfw_params'])
def nfw_of_halos(k):
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.HaloModels.NFW import NFWFieldHalo, NFWSubhhalo
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
    from pyHalo.Halos.HaloModels.blackhole import BlackHole
    lc, s = world(k)
    classes = k.choice('classes', [(NFWFieldHalo, NFWSubhhalo), (NFWFieldHalo, TNFWCHaloEvolving), (NFWFieldHalo, BlackHole), (BlackHole,), ()])
    ms, z = [k.real('m%d' % i, M()) for i in range(2)], k.real('z', ZH())
    cs = [k.real('c%d' % i, C()) for i in range(2)]
    mk = lambda: [k.run(cls, ms[i], 0.0, 0.0, None, z, cls is NFWSubhhalo, lc, {}, None, s['conc'], 0.5) for i, cls in enumerate(classes)]
    hs, ref = mk(), mk()
    for i in range(len(hs)):
        if classes[i] is not BlackHole:
            hs[i]._c = ref[i]._c = cs[i]
    k.begin()
    k.run(b.precompute_nfw_params, hs)
    for i in range(len(hs)):
        if classes[i] is BlackHole:
            k.check('objects without such a profile left alone', not hasattr(hs[i], '_nfw_params'))
            continue
        e, g = k.get(ref[i], 'nfw_params'), hs[i]._nfw_params
        for j in range(3):
            k.eq('parameters', g[j], e[j])


@contract('collapse of self-interacting halos', ['_evolve_profile_vectorized', 'evolve_profile'])
def evolve(k):
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.HaloModels.NFW_core_trunc import evolve_profile
    n, i = columns(k)
    t = k.array('t', n, Real(0, 3, pool=(0.0, 0.5, 1.0, 1.2, 1.6, 2.0)))
    rs = k.array('rs', n, posgen(k, 0.05, 30))
    k.begin()
    got = k.run(b._evolve_profile_vectorized, t, rs)
    exp = k.run(evolve_profile, k.at(t, i), k.at(rs, i))
    k.eq('scale radius', k.at(got[0], i), exp[0])
    k.eq('core radius', k.at(got[1], i), exp[1])


@contract('truncation of tidally stripped halos', ['compute_r_te_and_f_t_vectorized', '_truncation_radius_cached', '_reference_model_factors'], sym=False, seeds=200)
def radii(k):
    """bounded: both ways interpolate tables; compared on sampled lists of halos"""
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.galacticus_truncation.transfer_function_density_profile import compute_r_te_and_f_t
    n = k.size('n', 1)
    m, c, r = k.array('m', n, M()), k.array('c', n, C()), k.array('r200', n, posgen(k, 0.05, 300))
    f = k.array('fraction', n, Real(1e-4, 1, log=True, pool=(1.0, 0.01)))
    k.begin()
    rt, ft = k.run(b.compute_r_te_and_f_t_vectorized, m * f, m, r, c)
    k.check('one for each', len(rt) == n and len(ft) == n)
    for i in range(n):
        e, g = k.run(compute_r_te_and_f_t, m[i] * f[i], m[i], r[i], c[i])
        k.check('truncation radius', abs(rt[i] - e) <= 1e-4 * e)
        k.check('normalization', abs(ft[i] - g) <= 1e-8 * g)


@contract('a whole realization', ['precompute_realization'])
def realization_(k):
    import pyHalo.Halos.batch_halo_util as b
    how = k.choice('truncation given', ['one model', 'two models', 'none', 'in the realization'])
    sub_model = k.choice('subhalo model', ['TruncationGalacticus', 'TruncationGalacticusZinfall', 'TruncationGalacticusKeeley24', 'TruncationRoche'])
    ts, tf, own = k.obj(name=sub_model), k.obj(name='TruncationRN'), k.obj(name=sub_model)
    if how == 'one model':
        tf = ts
    h = lambda mdef, sub, t, **kw: k.obj(mdef=mdef, is_subhalo=sub, _truncation_class=t, **kw)
    hs = {'sub': h('TNFW', True, ts), 'field': h('TNFW', False, tf), 'own sub': h('TNFW', True, own), 'own field': h('TNFW', False, own),
          'parameters': k.obj(mdef='TNFW', is_subhalo=True), 'evolving': h('TNFWC', True, ts, _args={'sidm_timescale': 1.0}),
          'parametric': h('TNFWC', False, tf, _args={'x_core_halo': 0.1}), 'nfw': h('NFW', False, None), 'nfw sub': h('NFW', True, None),
          'point': h('PT_MASS', False, None), 'gnfw': h('GNFW', True, ts)}
    which = k.choice('halos', ['all', 'none', 'own only'])
    names = sorted(hs) if which == 'all' else [] if which == 'none' else ['own sub', 'own field', 'parameters', 'parametric', 'point', 'gnfw']
    done = []
    note = lambda what: lambda halos, *a: done.append((what, list(halos), a))
    for f in ('precompute_tnfw_subhalos', 'precompute_tnfw_field_halos', 'precompute_sidm_evolving_profiles', 'precompute_nfw_params'):
        k.override(getattr(b, f), note(f))
    kw = {'one model': {'truncation_model': ts}, 'none': {}}.get(how, {'truncation_model_subhalos': ts, 'truncation_model_field_halos': tf})
    r = k.obj(halos=[hs[q] for q in names], kwargs_halo_model=kw if how == 'in the realization' else {'truncation_model': own})
    k.begin()
    k.run(b.precompute_realization, r, *([] if how == 'in the realization' else [kw]))
    exp = []
    if which == 'all':
        if how != 'none' and sub_model in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
            exp.append(('precompute_tnfw_subhalos', [hs['sub']], (ts,)))
        if how != 'none':
            exp.append(('precompute_tnfw_field_halos', [hs['field']], (tf,)))
        exp += [('precompute_sidm_evolving_profiles', [hs['evolving']], ()), ('precompute_nfw_params', [hs['nfw'], hs['nfw sub']], ())]
    done = [d for d in done if d[1]]
    k.check('each kind by its own routine', len(done) == len(exp))
    for d, e in zip(done, exp):
        k.check('each kind by its own routine', d[0] == e[0] and len(d[1]) == len(e[1]) and all(x is y for x, y in zip(d[1], e[1])))
        k.check('with the model it was made with', len(d[2]) == len(e[2]) and all(x is y for x, y in zip(d[2], e[2])))


@contract('self-interacting halos', ['precompute_sidm_evolving_profiles', 'TNFWCHaloEvolving.profile_args', 'TNFWCHaloEvolving.halo_effective_age'],
          sym=False, seeds=250)
def sidm(k):
    """bounded: sums over tables of radii; compared on sampled lists of halos"""
    import pyHalo.Halos.batch_halo_util as b
    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
    from pyHalo.Halos.HaloModels.NFW import NFWFieldHalo
    lc, s = world(k)
    co, ast = s['co'], s['co'].astropy
    slope = k.real('age slope', Real(0.2, 3))
    co._halo_age_interp = lambda z: 13.0 / (1 + np.asarray(z)) ** slope
    co.halo_age = lambda z, zform=10: 0.0 if z > zform else float(co._halo_age_interp(z) - co._halo_age_interp(zform))
    co.astropy.age = lambda z: k.obj(value=co._halo_age_interp(z))
    of = lambda f: lambda *z: k.obj(value=np.array([f(*[float(q[i]) if np.ndim(q) else q for q in z]) for i in range(len(z[0]))]) if np.ndim(z[0]) else f(*z))
    ast.angular_diameter_distance, ast.angular_diameter_distance_z1z2 = of(co.D_A_z), of(co.D_A)
    scalar = co.kpc_proper_per_asec
    co.kpc_proper_per_asec = lambda z: np.array([scalar(float(q)) for q in z]) if np.ndim(z) else scalar(z)
    n = k.size('n', 0)
    kind = [k.choice('kind %d' % i, ['subhalo', 'field halo', 'has a profile', 'NFW']) for i in range(n)]
    m, c, z = k.array('m', n, M()), k.array('c', n, C()), k.array('z', n, ZH())
    zi = k.array('zi', n, Real(0.02, 14, pool=(0.5, 3.0, 10.0, 12.0)))
    known = k.choice('infall redshift known', [True, False])
    rt, tc = k.array('rt', n, Real(0.1, 100)), k.array('tc', n, Real(0.5, 100, log=True))
    lam, target = k.array('lambda', n, Real(0.5, 3)), k.array('target', n, M())

    def mk():
        out = []
        for i in range(n):
            args = {'rt_kpc': rt[i], 'sidm_timescale': tc[i], 'mass_conservation': target[i], 'lambda_t': lam[i]}
            cls = NFWFieldHalo if kind[i] == 'NFW' else TNFWCHaloEvolving
            h = k.run(cls, m[i], 0.0, 0.0, None, z[i], kind[i] == 'subhalo', lc, args, None, s['conc'], 0.5)
            h._c = c[i]
            if kind[i] == 'subhalo' and known:
                h._z_infall = zi[i]
            if kind[i] == 'has a profile':
                h._profile_args = 'PROFILE'
            out.append(h)
        return out
    hs, ref = mk(), mk()
    k.begin()
    k.run(b.precompute_sidm_evolving_profiles, hs)
    for i in range(n):
        if kind[i] == 'NFW':
            k.check('other halos untouched', not hasattr(hs[i], '_profile_args'))
        elif kind[i] == 'has a profile':
            k.check('profiles kept', hs[i]._profile_args == 'PROFILE')
        else:
            for q, g, e in zip(('deflection', 'scale radius', 'core radius', 'truncation radius', 'r200'), hs[i]._profile_args, ref[i].profile_args):
                k.eq(q, g, e, rtol=1e-9)
            k.eq('age', hs[i].halo_effective_age, ref[i].halo_effective_age, rtol=1e-9, atol=1e-12)
            k.eq('collapse', hs[i].t_over_tc, ref[i].t_over_tc, rtol=1e-9, atol=1e-12)
