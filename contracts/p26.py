"""halos: infall, evaluation redshift, rescaling, masses and densities of the (truncated) NFW halos"""
import numpy as np
from engine.api import contract
from engine.kit import Real
from .common import posgen, lens
from .specs.profile import slope as slope_of
from .specs.sidm import projected
from .halolib import M, Z, F, classes, world, truncation, build, nfw

PROPERTY = dict(
    title='Halos: evaluated at infall, rescaled once, mass and density consistent',
    statement="""A halo keeps what it was built with. A subhalo's infall redshift is drawn once from the infall model for its mass, unless it is
    set; a field halo's cannot be set. Concentration and NFW scale parameters are those of its mass at infall for subhalos and at its own redshift
    for field halos, computed once. Rescaling a halo's normalization multiplies its density, enclosed mass, physical density parameter and
    deflection (and the square of its maximum circular velocity) by the factor, whatever was read before, and happens once unless forced.
    Density, enclosed mass and bound mass of NFW and truncated NFW halos agree with their profile, in the truncation radius
    the truncation model gives for the halo, whichever is read first. The radius of a given logarithmic slope of a truncated NFW profile
    is the inverse of its slope. The bound mass a tidally stripped subhalo reports is the one its profile was truncated with.""",
    over=['inputs', 'histories'],
    forall='all halo masses, redshifts, concentrations, truncation models, rescaling factors, and orders in which properties are read',
    tests='the tests sample a few halos, rarely rescaled, each property read in one order',
    files=['pyHalo/Halos/halo_base.py', 'pyHalo/Halos/HaloModels/NFW.py', 'pyHalo/Halos/HaloModels/TNFW.py', 'pyHalo/Halos/tnfw_halo_util.py'],
    mechanism=[('Halo.rescale_normalization, z_infall, z_eval, nfw_params', 'pyHalo/Halos/halo_base.py'),
               ('NFWFieldHalo', 'pyHalo/Halos/HaloModels/NFW.py'),
               ('TNFWFieldHalo, TNFWSubhalo', 'pyHalo/Halos/HaloModels/TNFW.py'),
               ('cubic_real_roots', 'pyHalo/Halos/tnfw_halo_util.py')],
)

@contract('construction', ['Halo.__init__', 'Halo.update_args', 'NFWFieldHalo.__init__', 'TNFWFieldHalo.__init__'])
def construction(k):
    lc, s = world(k)
    name = k.choice('class', sorted(classes()))
    args = {'a': 1}
    m, x, y, r, t = (k.real(q, Real(-5, 5)) for q in ('m', 'x', 'y', 'r', 'tag'))
    z = k.real('z', Real(-1, 2, pool=(0.0, 0.5)))
    sub = k.choice('subhalo', [True, False])
    k.begin()
    out = k.call(classes()[name], m, x, y, r, z, sub, lc, args, None, s['conc'], t)
    if z > 0:
        k.check('built', out.ok)
    else:
        k.check('redshifts are positive', out.raised(AssertionError))
        return
    h = out.value
    for q, v in (('mass', m), ('x', x), ('y', y), ('r3d', r), ('z', z), ('unique_tag', t)):
        k.eq(q, getattr(h, q), v)
    k.check('subhalo', h.is_subhalo is sub)
    k.check('cosmology', h.lens_cosmo is lc)
    k.check('profile', h.mdef == name[:4].rstrip('F').rstrip('S') and k.get(h, 'lenstronomy_ID') == [h.mdef])
    k.check('can be moved', not h.fixed_position)
    k.eq('not rescaled', k.get(h, 'rescale_norm'), 1)
    k.check('settings', k.get(h, 'args_profile')['a'] == 1)
    k.run(h.update_args, {'b': 2})
    k.check('settings updated', k.get(h, 'args_profile')['b'] == 2 and k.get(h, 'args_profile')['a'] == 1)


@contract('infall redshift', ['Halo.z_infall', 'Halo.z_eval', 'Halo.set_infall_redshift', 'Halo.time_since_infall', 'Halo.halo_age'])
def infall(k):
    lc, s = world(k)
    cls = classes()[k.choice('class', ['NFWFieldHalo', 'TNFWSubhalo'])]
    sub = k.choice('subhalo', [True, False])
    h, m, z, _ = build(k, cls, lc, s, sub)
    setz = k.choice('set', [True, False])
    new = k.real('new', Real(0.5, 10))
    first = k.choice('first read', ['z_eval', 'z_infall', 'time_since_infall'])
    k.begin()
    exp = s['zi'](m)
    if setz:
        out = k.call(h.set_infall_redshift, new)
        if not sub:
            k.check('a field halo has no infall redshift to set', out.raised(Exception))
        else:
            exp = new
    early = k.read(h, first)
    k.eq('evaluated at infall, or where it is', k.get(h, 'z_eval'), exp if sub else z)
    if sub:
        k.eq('infall redshift', k.get(h, 'z_infall'), exp)
        k.eq('infall redshift again', k.get(h, 'z_infall'), exp)
        k.check('drawn once', len(s['asked']) == (0 if setz else 1))
        t = s['age'](z, exp)
        out = k.read(h, 'time_since_infall')
        if t >= 0:
            k.check('time since infall is defined', out.ok)
            k.eq('time since infall', out.value, t)
    else:
        k.check('no time since infall', k.get(h, 'time_since_infall') is None)
    k.eq('age since z=10', k.get(h, 'halo_age'), s['age'](z, 10))


@contract('concentration and NFW parameters', ['Halo.nfw_params', 'NFWFieldHalo.c', 'TNFWFieldHalo.c', 'NFWFieldHalo.profile_args', 'TNFWFieldHalo.profile_args'])
def params(k):
    lc, s = world(k)
    name = k.choice('class', sorted(classes()))
    h, m, z, sub = build(k, classes()[name], lc, s, trunc=truncation(k, s))
    k.begin()
    order = k.choice('order', [0, 1])
    for q in (['c', 'nfw_params'], ['nfw_params', 'c'])[order]:
        k.get(h, q)
    exp = nfw(k, lc, s, m, z, sub, h)
    k.eq('concentration', k.get(h, 'c'), exp[0])
    k.check('one concentration', len(s['conc_asked']) == 1)
    for q, a, b in zip(('density', 'scale radius', 'r200'), k.get(h, 'nfw_params'), exp[1:]):
        k.eq(q, a, b)
    if name.startswith('TNFW'):
        c, rt = k.get(h, 'profile_args')
        k.eq('concentration of the profile', c, exp[0])
        k.eq('truncation radius', rt, s['rt'](m, z))
    else:
        k.eq('concentration of the profile', k.get(h, 'profile_args'), exp[0])


READ = ['mass_3d', 'density', 'params_physical', 'vmax', 'lenstronomy', 'bound_mass']


def read(k, h, q, name, r, lc):
    if q == 'mass_3d':
        return k.run(h.mass_3d, r)
    if q == 'density':
        return k.run(h.density_profile_3d, r)
    if q == 'params_physical':
        return k.get(h, 'params_physical')['rhos'] if name[0] == 'T' else None
    if q == 'vmax':
        return k.get(h, 'vmax_nfw')
    if q == 'bound_mass':
        return k.get(h, 'bound_mass') if name == 'TNFWSubhalo' else None
    return k.get(h, 'lenstronomy_params')[0][0]['alpha_Rs']


@contract('rescaling once', ['Halo.rescale_normalization', 'Halo.rescale_norm'])
def once(k):
    lc, s = world(k)
    h, m, z, sub = build(k, classes()[k.choice('class', ['NFWFieldHalo', 'TNFWSubhalo'])], lc, s, trunc=truncation(k, s))
    steps = k.choice('calls', [0, 1, 2])
    norm, done = 1, False
    k.begin()
    for i in range(steps + 1):
        f = k.real('factor %d' % i, F())
        force, log, given = k.choice('force %d' % i, [False, True]), k.choice('log %d' % i, [True, False]), k.choice('given %d' % i, [True, False])
        if given:
            k.run(h.rescale_normalization, f, force, log)
        else:
            force, log = False, True
            k.run(h.rescale_normalization, f)
        if force or not done:
            norm = norm * f
            done = done or log
        k.eq('factor after %d calls' % (i + 1), k.get(h, 'rescale_norm'), norm)


@contract('values, rescaled or not', ['Halo.rescale_normalization', 'NFWFieldHalo.mass_3d', 'TNFWFieldHalo.mass_3d', 'NFWFieldHalo.density_profile_3d',
                                      'TNFWFieldHalo.density_profile_3d', 'TNFWFieldHalo.params_physical', 'NFWFieldHalo.vmax_nfw', 'TNFWFieldHalo.vmax_nfw',
                                      'TNFWFieldHalo.lenstronomy_params', 'NFWFieldHalo.lenstronomy_params', 'TNFWSubhalo.bound_mass', 'tnfw_mass_fraction'])
def values(k):
    from lenstronomy.LensModel.Profiles.nfw import NFW
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    lc, s = world(k)
    name = k.choice('class', ['NFWFieldHalo', 'TNFWFieldHalo', 'TNFWSubhalo'])
    tidal = k.choice('tidal rescaling', [True, False]) if name == 'TNFWSubhalo' else False
    h, m, z, sub = build(k, classes()[name], lc, s, sub=name == 'TNFWSubhalo', trunc=truncation(k, s, rescale=tidal))
    r = k.real('radius', Real(1e-3, 100, log=True))
    first = k.choice('read before', READ + ['nothing'])
    what = k.choice('read', READ)
    f = k.real('factor', F())
    rescaled = k.choice('rescaled', [True, False])
    k.begin()
    if first != 'nothing':
        read(k, h, first, name, r, lc)
    norm = s['ft']
    if rescaled:
        k.run(h.rescale_normalization, f, force=True, log=False)
        norm = norm * f
    c, rhos, rs, r200 = nfw(k, lc, s, m, z, sub, h)
    got = read(k, h, what, name, r, lc)
    T = name[0] == 'T'
    rt = s['rt'](m, z)
    if what == 'mass_3d':
        e = k.run(TNFW().mass_3d, r, rs, rhos * norm, rt / rs) if T else k.run(NFW().mass_3d, r, rs, rhos * norm)
        k.eq('enclosed mass', got, e)
        e = k.run(TNFW().mass_3d, c * rs, rs, rhos * norm, rt / rs) if T else k.run(NFW().mass_3d, c * rs, rs, rhos * norm)
        k.eq('mass inside r200', k.run(h.mass_3d, 'r200'), e)
    elif what == 'density':
        q = r / rs
        e = norm * rhos / (q * (1 + q) ** 2) * ((rt / rs) ** 2 / ((rt / rs) ** 2 + q ** 2) if T else 1)
        k.eq('density', got, e)
        k.eq('scaled density', k.run(h.density_profile_3d, r, None, 2.5), 2.5 * e)
        if T:
            t2 = k.real('other truncation radius', Real(0.01, 30))
            e = norm * rhos / (q * (1 + q) ** 2) * (t2 / rs) ** 2 / ((t2 / rs) ** 2 + q ** 2)
            k.eq('density for another truncation', k.run(h.density_profile_3d, r, (c, t2)), e)
    elif what == 'params_physical' and T:
        k.eq('density parameter', got, norm * rhos)
        p = k.get(h, 'params_physical')
        k.eq('scale radius', p['rs'], rs)
        k.eq('r200', p['r200'], r200)
        k.eq('truncation radius', p['r_trunc_kpc'], rt)
    elif what == 'vmax':
        k.eq('maximum circular velocity', got, k.run(lc.nfw_vmax, norm * rhos, rs))
    elif what == 'lenstronomy':
        _, al = k.run(lc.nfw_physical2angle_fromNFWparams, rhos * 1e9, rs / 1000, z)
        k.eq('deflection', got, norm * k.round(al, 10))
    elif what == 'bound_mass' and name == 'TNFWSubhalo':
        frac = lambda t: k.run(TNFW().mass_3d, c, 1.0, 1 / (4 * np.pi), t) / (k.log(1 + c) - c / (1 + c))
        ok = k.Eq(got, frac(rt / rs) * m * norm)
        if first == 'lenstronomy':
            # the angles of the lens model are rounded to 10 digits after the point
            ra, _ = k.run(lc.nfw_physical2angle_fromNFWparams, rhos * 1e9, rs / 1000, z)
            t = k.round(rt / s['kpa'](z), 10) / k.round(ra, 10)
            ok = k.Or(ok, k.Eq(got, frac(t) * m * norm))
        k.check('bound mass', ok)
    c2 = k.get(h, 'c')
    k.eq('concentration is not rescaled', c2, c)
    k.eq('mass at infall is not rescaled', h.mass, m)


@contract('tidally truncated subhalos', ['TNFWSubhalo.profile_args', 'TNFWSubhalo.bound_mass_galacticus_definition'])
def tidal_subhalos(k):
    lc, s = world(k)
    model = k.choice('model', ['TruncationGalacticus', 'TruncationGalacticusZinfall', 'TruncationGalacticusKeeley24', 'TruncationGalacticusApproxCDM',
                               'TruncationMultipleRS', 'TruncateMeanDensity'])
    h, m, z, sub = build(k, classes()['TNFWSubhalo'], lc, s, sub=True, trunc=truncation(k, s, model, rescale=model.startswith('TruncationG')))
    order = k.choice('bound mass first', [True, False])
    k.begin()
    if order:
        out = k.read(h, 'bound_mass_galacticus_definition')
    c, rt = k.get(h, 'profile_args')
    if not order:
        out = k.read(h, 'bound_mass_galacticus_definition')
    if model.startswith('TruncationG'):
        k.check('the model defines a bound mass', out.ok)
        k.eq('bound mass of the model', out.value, s['mb'](m))
        k.check('bound mass computed once', s['tcalls'].count('bound') == 1)
    else:
        k.check('the model defines no bound mass', out.raised(Exception))
    k.eq('concentration', c, s['cfn'](m, s['zi'](m)))
    k.eq('truncated with the bound mass', rt, s['rb'](m, s['mb'](m)) if model.startswith('TruncationG') else s['rt'](m, z))
    again = k.get(h, 'profile_args')
    k.eq('truncated once', again[1], rt)
    k.check('one truncation', len([q for q in s['tcalls'] if q != 'bound']) == 1)


@contract('bound mass of other halos', ['Halo.bound_mass', 'Halo.set_bound_mass'])
def other_bound(k):
    lc, s = world(k)
    h, m, z, sub = build(k, classes()[k.choice('class', ['NFWFieldHalo', 'NFWSubhhalo', 'TNFWFieldHalo'])], lc, s, trunc=truncation(k, s))
    b = k.real('b', M())
    k.begin()
    k.check('none before it is set', k.read(h, 'bound_mass').raised(Exception))
    k.run(h.set_bound_mass, b)
    k.eq('as set', k.get(h, 'bound_mass'), b)


@contract('profiles without a property', ['Halo.params_physical', 'Halo.density_profile_3d', 'Halo.c'])
def undefined(k):
    from pyHalo.Halos.HaloModels.blackhole import BlackHole
    lc, s = world(k)
    h = k.run(BlackHole, k.real('m', M()), 0.1, 0.2, None, 0.5, False, lc, {}, None, None, 0.3)
    k.begin()
    k.check('no physical parameters', k.read(h, 'params_physical').raised(Exception))
    k.check('no density', k.call(lambda: h.density_profile_3d(1.0)).raised(Exception))
    k.check('no concentration', k.read(h, 'c').raised(Exception))


@contract('mass of any profile', ['Halo.mass_3d'])
def any_mass(k):
    """the enclosed mass of a profile without its own formula is the integral of its density"""
    from pyHalo.Halos.halo_base import Halo
    lc, s = world(k)
    rho = k.fn('rho', posgen(k, 0.1, 10), impl=lambda r: 3.0 / (1 + r) ** 2)
    rho2 = k.fn('rho2', posgen(k, 0.1, 10), impl=lambda r, a: (2.0 + a) / (1 + r) ** 2)
    c, rs = k.real('c', Real(1, 40)), k.real('rs', Real(0.1, 10))

    class Profile(Halo):
        def density_profile_3d(self, r, profile_args=None):
            return rho(r) if profile_args is None else rho2(r, profile_args)
    h = k.new(Profile)
    Profile.c, Profile.nfw_params = c, (1.0, rs, 2.0)
    r, a = k.real('r', Real(0.1, 20)), k.real('a', Real(0, 5))
    k.begin()
    k.eq('integral of the density', k.run(h.mass_3d, r), k.quad(lambda q: 4 * np.pi * q ** 2 * rho(q), 0, r))
    k.eq('with given parameters', k.run(h.mass_3d, r, a), k.quad(lambda q: 4 * np.pi * q ** 2 * rho2(q, a), 0, r))
    k.eq('inside r200', k.run(h.mass_3d, 'r200'), k.quad(lambda q: 4 * np.pi * q ** 2 * rho(q), 0, c * rs))


@contract('logarithmic slopes', ['Halo.logarithmic_profile_slope'], sym=False, seeds=60)
def slope(k):
    """bounded: numerical differentiation, compared with the analytic slope on sampled halos and radii"""
    lc, s = world(k)
    h, m, z, sub = build(k, classes()['TNFWFieldHalo'], lc, s, trunc=truncation(k, s))
    x = k.real('r in rs', Real(0.01, 20, log=True))
    k.begin()
    rs, rt = h.nfw_params[1], h.profile_args[1]
    k.check('at a radius', abs(k.run(h.logarithmic_profile_slope, float(x * rs)) - h.log_profile_slope(x * rs, rs, rt)) < 5e-3)
    r = np.linspace(0.999, 1.001, 5) * x * rs
    k.check('on an array', np.allclose(k.run(h.logarithmic_profile_slope, r), h.log_profile_slope(r, rs, rt), atol=5e-3))


@contract('finite differences', ['Halo.logarithmic_profile_slope', 'Halo._logarithmic_profile_slope_array'])
def slope_array(k):
    """the slope of any density profile between the radii given, and just beyond a single radius"""
    from pyHalo.Halos.halo_base import Halo
    rho, rho2 = k.fn('density', posgen(k, 1e3, 1e8)), k.fn('density with parameters', posgen(k, 1e3, 1e8))

    class Profile(Halo):
        def density_profile_3d(self, r, profile_args=None):
            f = rho if profile_args is None else lambda r: rho2(r, profile_args)
            return k.map(f, r)
    h = k.new(Profile)
    r, a = k.real('r', Real(0.1, 20)), k.real('a', Real(0, 5))
    R = k.arr([r, r * 1.5, r * 4, r * 5])
    k.begin()
    if k.choice('parameters', ['own', 'given']) == 'own':
        f, args = rho, ()
    else:
        f, args = (lambda q: rho2(q, a)), (a,)
    k.same('on an array', k.run(h.logarithmic_profile_slope, R, *args), k.run(slope_of, lambda q: k.map(f, q), R))
    got = k.run(h.logarithmic_profile_slope, k.run(float, r), *args)
    k.eq('at a radius', got, (k.log(f(r * 1.001)) - k.log(f(r))) / (k.log(r * 1.001) - k.log(r)), rtol=None if k.sym else 1e-5)


@contract('slope of a truncated NFW profile', ['TNFWFieldHalo.log_profile_slope', 'TNFWFieldHalo.log_derivative_inverse', 'tnfw_density_profile'])
def tnfw_slope(k):
    import pyHalo.Halos.HaloModels.TNFW as T
    import pyHalo.Halos.tnfw_halo_util as U
    rs, t = k.real('rs', Real(0.01, 20, log=True)), k.real('rt over rs', Real(0.01, 1000, log=True))
    rt = t * rs
    g = k.real('slope', Real(-4.9, -1.1, pool=(-2.0, -3.0, -4.0)))
    x = k.real('x', Real(0.01, 30, log=True))
    if k.sym:
        # contract of cubic_real_roots (below); a positive root exists since the slope decreases from -1 to -5
        def roots(a, b, c, d):
            out = []
            for i in range(k.choice('number of roots', [1, 3])):
                q = k.real('root %d' % i)
                k.assume(k.Eq(a * q * q * q + b * q * q + c * q + d, 0))
                out.append(q)
            k.assume(k.Or(*[q > 0 for q in out]))
            return out
        for mod in (T, U):
            k.override(mod.cubic_real_roots, roots)
    k.begin()
    r = k.run(T.TNFWFieldHalo.log_derivative_inverse, g, rs, rt)
    k.check('a radius', r > 0)
    got = k.run(T.TNFWFieldHalo.log_profile_slope, r, rs, rt)
    if k.sym:
        y = r / rs
        d1, d2 = 1 + y, t ** 2 + y ** 2
        n = 2 * d2 + 2 * t ** 2 * d1
        k.lemma('the equation of the slope', k.Eq((g + 5) * d1 * d2, n))
        k.lemma('one factor', k.Eq((g + 5) * d1, n / d2), using=[d2 > 0, k.Eq((g + 5) * d1 * d2, n)])
        k.lemma('solved', k.Eq(g, -5 + n / d2 / d1), using=[d1 > 0, k.Eq((g + 5) * d1, n / d2)])
        k.eq('the profile has this slope there', -5 + n / d2 / d1, g)
        k.eq('the slope evaluated there is this one', got, -5 + n / d2 / d1)
    else:
        k.check('the profile has this slope there', abs(got - g) < 1e-6)
    k.eq('slope', k.run(T.TNFWFieldHalo.log_profile_slope, x * rs, rs, rt), -1 - 2 * x / (1 + x) - 2 * x ** 2 / (t ** 2 + x ** 2))
    rho = k.real('rhos', Real(1, 1e9))
    k.eq('density', k.run(U.tnfw_density_profile, x * rs, rho, rs, rt), rho / (x * (1 + x) ** 2) * t ** 2 / (x ** 2 + t ** 2))


@contract('roots of cubic polynomials', ['cubic_real_roots'])
def cubic(k):
    from pyHalo.Halos.tnfw_halo_util import cubic_real_roots
    G = lambda: Real(-10, 10, pool=(0.0, 1.0, -2.0))
    kind = k.choice('degree', ['cubic', 'quadratic', 'linear', 'constant'])
    a, b, p, q = (k.real(n, G()) for n in 'abpq')
    lead = {'cubic': a, 'quadratic': b, 'linear': p, 'constant': 1.0}[kind]
    k.assume(k.Or(lead > 1e-3, lead < -1e-3))
    roots, angle = [], []
    if k.sym and kind == 'cubic':
        # depressed form: x = y - b/3 with y^3 + p y + q = 0
        c, d = p + b * b / 3, q - 2 * b * b * b / 27 + b * p / 3 + b * b * b / 9
        co = (a, a * b, a * c, a * d)

        def cbrt(v):
            t = k.real('cube root %d' % len(roots))
            k.assume(k.Eq(t * t * t, v))
            roots.append((t, v))
            return t

        def arccos(v):
            f = k.real('angle', Real(0, np.pi))
            angle.append((f, v, []))
            return f

        def cos(v):
            t = k.real('cosine %d' % (len(angle[0][2]) if angle else 0), Real(-1, 1))
            if angle:
                angle[0][2].append((t, v))
            return t
        k.override(np.cbrt, cbrt)
        k.override(np.arccos, arccos)
        k.override(np.cos, cos)
    else:
        c, d = p, q
        co = {'cubic': (a, b, c, d), 'quadratic': (0.0, b, c, d), 'linear': (0.0, 0.0, c, d), 'constant': (0.0, 0.0, 0.0, d)}[kind]
    k.begin()
    out = k.run(cubic_real_roots, *co)
    if kind == 'cubic':
        if k.sym:
            if len(out) == 1:
                if len(roots) != 2:
                    return
                (t, u), (v, w) = roots
                k.lemma('product of the radicands', k.Eq(u * w, -(p * p * p) / 27))
                k.lemma('sum of the radicands', k.Eq(u + w, -q))
                k.lemma('cube of the product of the roots', k.Eq((t * v) ** 3, -(p / 3) ** 3))
                k.lemma('product of the roots', k.Eq(t * v, -p / 3))
                y = t + v
                if not k.lemma('depressed cubic', k.Eq(y * y * y + p * y + q, 0)):
                    return
                k.check('a root', k.Eq(out[0] ** 3 + b * out[0] ** 2 + c * out[0] + d, 0))
                return
            k.check('three roots', len(out) == 3)
            if not angle:
                for i in range(3):
                    if k.lemma('degenerate', k.And(k.Eq(p, 0), k.Eq(q, 0))):
                        k.check('triple root %d' % i, k.Eq(out[i] + b / 3, 0))
                return
            f, X, cosines = angle[0]
            if len(cosines) != 3:
                return
            r = k.sqrt(-p / 3)
            for i, (C, v) in enumerate(cosines):
                if not k.lemma('angle %d' % i, k.Eq(3 * v, f + 2 * np.pi * i)):
                    return
                # cos(3 v) = 4 cos(v)^3 - 3 cos(v), and cos(3 v) = cos(angle) = the argument of arccos
                k.assume(k.Eq(4 * C * C * C - 3 * C, X))
            k.lemma('square', k.Eq(r * r, -p / 3))
            R = k.real('R', Real(0, 100))
            k.assume(k.Eq(R, r))
            k.lemma('square', k.Eq(R * R, -p / 3))
            k.lemma('positive', R > 0)
            k.lemma('discriminant', q * q / 4 <= R * R * R * R * R * R)
            k.lemma('upper bound', -q / 2 <= R * R * R)
            k.lemma('lower bound', -q / 2 >= -R * R * R)
            if not k.lemma('cosine of the angle', k.Eq(X * R * R * R, -q / 2)):
                return
            for i, (C, v) in enumerate(cosines):
                y = k.real('y%d' % i)
                k.assume(k.Eq(y, 2 * R * C))
                if not k.lemma('shift %d' % i, k.Eq(out[i], y - b / 3)):
                    continue
                k.lemma('cube %d' % i, k.Eq(y * y * y, 8 * R * R * R * C * C * C))
                if k.lemma('depressed cubic %d' % i, k.Eq(y * y * y + p * y + q, 0)):
                    k.check('root %d' % i, k.Eq((y - b / 3) ** 3 + b * (y - b / 3) ** 2 + c * (y - b / 3) + d, 0))
            return
        exact = [np.real(z) for z in np.roots(co) if abs(np.imag(z)) < 1e-9]
        disc = b * b * c * c - 4 * a * c ** 3 - 4 * b ** 3 * d - 27 * a * a * d * d + 18 * a * b * c * d
        if abs(disc) > 1e-3:
            k.check('all real roots', len(out) == len(exact) and np.allclose(sorted(out), sorted(exact), rtol=1e-5, atol=1e-5))
    elif kind == 'quadratic':
        disc = c * c - 4 * b * d
        if disc < 0:
            k.check('no real roots', len(out) == 0)
        else:
            k.check('two roots', len(out) == 2)
            k.eq('their sum', out[0] + out[1], -c / b)
            k.eq('their product', out[0] * out[1], d / b)
    elif kind == 'linear':
        k.check('one root', len(out) == 1)
        k.eq('root', out[0] * c, -d)
    else:
        k.check('no roots', len(out) == 0)


@contract('truncated NFW halos as lenses', ['TNFWFieldHalo.deflection_angle', 'TNFWFieldHalo.density_profile_3d_lenstronomy', 'TNFWFieldHalo.mass_2d'])
def as_lens(k):
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    zs = k.real('zs', Real(2, 4, pool=(2.0,)))
    lc, s = world(k, zs)
    h, m, z, sub = build(k, classes()[k.choice('class', ['TNFWFieldHalo', 'TNFWSubhalo'])], lc, s, trunc=truncation(k, s))
    r = k.real('r', Real(0.01, 10))
    k.begin()
    p = k.get(h, 'lenstronomy_params')[0][0]
    k.eq('deflection', k.run(h.deflection_angle, r), k.run(TNFW().derivatives, r, 0, p['Rs'], p['alpha_Rs'], p['r_trunc'], 0, 0)[0])
    sc = k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6
    kpa = s['kpa'](z)
    k.eq('density', k.run(h.density_profile_3d_lenstronomy, r),
         sc / kpa * k.run(TNFW().density, r / kpa, p['Rs'], k.run(TNFW().alpha2rho0, p['alpha_Rs'], p['Rs']), p['r_trunc']))


@contract('projected mass of truncated NFW halos', ['TNFWFieldHalo.mass_2d'], sym=False, seeds=25)
def projected_mass(k):
    """bounded: the numerical integral of the convergence on sampled halos"""
    lc, s = world(k)
    h, m, z, sub = build(k, classes()['TNFWFieldHalo'], lc, s, trunc=truncation(k, s))
    kappa = k.fn('kappa', Real(0.1, 1), impl=lambda x: 0.3 / (0.2 + x))

    class Lens(object):
        def hessian(self, x, y, Rs, alpha_Rs, r_trunc, **kw):
            v = 0.3 / (Rs + np.hypot(x, y)) * alpha_Rs
            return 0.6 * v, 0.1 * v, 0.1 * v, 1.4 * v
    h.tnfw_lenstronomy = Lens()
    r = k.choice('radius', [5.0, 'r200'])
    k.begin()
    got = k.run(h.mass_2d, r)
    R = (h.nfw_params[2] if r == 'r200' else r) / s['kpa'](z)
    p = h.lenstronomy_params[0][0]
    f = lambda x: 0.3 * p['alpha_Rs'] * (x - p['Rs'] * np.log(1 + x / p['Rs']))
    exp = 2 * np.pi * (f(R) - f(R * 10 ** -3.5)) * lc.get_sigma_crit_lensing(z, lc.z_source) * 1e-6 * s['kpa'](z) ** 2
    k.check('integral of the convergence', abs(got / exp - 1) < 1e-3)
    k.check('finer steps', abs(k.run(h.mass_2d, r, 3000) / exp - 1) < 1e-3)


@contract('convergence integrated over the disk', ['TNFWFieldHalo.mass_2d'], seeds=40)
def disk(k):
    from lenstronomy.LensModel.Profiles.tnfw import TNFW
    zs = k.real('zs', Real(2, 4, pool=(2.0,)))
    lc, s = world(k, zs)
    h, m, z, sub = build(k, classes()[k.choice('class', ['TNFWFieldHalo', 'TNFWSubhalo'])], lc, s, trunc=truncation(k, s))
    if k.choice('rescaled', [True, False]):
        k.run(h.rescale_normalization, k.real('factor', F()))
    R = k.choice('radius', ['r200', 'given'])
    k.begin()
    p = k.get(h, 'lenstronomy_params')[0][0]
    Rv = nfw(k, lc, s, m, z, sub, h)[3] if R == 'r200' else k.real('R', Real(0.1, 50))
    total = k.run(projected, TNFW().hessian, Rv / s['kpa'](z), 1000 if k.sym else 5000, p['Rs'], p['alpha_Rs'], p['r_trunc'])
    k.eq('projected mass', k.run(h.mass_2d, 'r200' if R == 'r200' else Rv),
         total * (k.run(lc.get_sigma_crit_lensing, z, zs) / 1e6 * s['kpa'](z) ** 2), rtol=None if k.sym else 5e-3)


@contract('set-ups', ['TNFWFieldHalo.simple_setup', 'TNFWSubhalo.simple_setup'])
def setups(k):
    lc, s = world(k)
    sub = k.choice('subhalo', [True, False])
    m, z, x, y = k.real('m', M()), k.real('z', Z()), k.real('x', Real(-2, 2)), k.real('y', Real(-2, 2))
    f, zi, tau = k.real('bound fraction', Real(0.01, 0.9)), k.real('zi', Real(1, 5)), k.real('tau', Real(0.1, 50))
    k.begin()
    cls = classes()['TNFWSubhalo' if sub else 'TNFWFieldHalo']
    if sub:
        h = k.run(cls.simple_setup, m, f, zi, x, y, z, lc, s['conc'])
        k.eq('bound mass', k.get(h, 'bound_mass_galacticus_definition'), f * m)
        k.eq('infall redshift', k.get(h, 'z_infall'), zi)
    else:
        h = k.run(cls.simple_setup, m, x, y, z, tau, lc, s['conc'])
        _, rs, _ = nfw(k, lc, s, m, z, False, h)[1:]
        k.eq('truncation radius', k.get(h, 'profile_args')[1], tau * rs)
    for q, v in (('mass', m), ('x', x), ('y', y), ('z', z)):
        k.eq(q, getattr(h, q), v)
    k.check('subhalo', h.is_subhalo is sub)
    k.eq('concentration', k.get(h, 'c'), s['cfn'](m, zi if sub else z))


@contract('set-ups with a named concentration model', ['TNFWFieldHalo.simple_setup', 'TNFWSubhalo.simple_setup'], sym=False, seeds=3)
def setups_named(k):
    """bounded: the named model of the code, without scatter, on astropy and colossus"""
    from pyHalo.Halos.lens_cosmo import LensCosmo
    from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
    lc = LensCosmo(0.5, 2.0)
    m, z = k.real('m', Real(1e6, 1e10, log=True)), k.real('z', Real(0.1, 0.9))
    k.begin()
    a = k.run(classes()['TNFWFieldHalo'].simple_setup, m, 0.1, 0.2, z, 5.0, lc)
    b = k.run(classes()['TNFWSubhalo'].simple_setup, m, 0.3, 1.5, 0.1, 0.2, z, lc)
    ref = ConcentrationDiemerJoyce(lc.cosmo.astropy, scatter=False)
    k.check('field halo', abs(a.c / ref.nfw_concentration(m, z) - 1) < 1e-9)
    k.check('subhalo', abs(b.c / ref.nfw_concentration(m, 1.5) - 1) < 1e-9)
    k.check('rescaled by tides', 0 < b.profile_args[1] and 0 < b.rescale_norm < 1.5)
