"""the state of a realization mirrors its halos"""
from engine.api import contract
from engine.kit import Real, Bool, Build
from .common import halos, realization, lens_cosmo, cosmo, ZH

PROPERTY = dict(
    title='A realization mirrors its halos: parallel arrays, settings, one halo per row',
    statement="""However it is built, a realization's per-halo arrays (mass, position, 3-D radius, redshift, kind, tag,
    subhalo flag) list exactly the attributes of its halos in order, and its lens planes are the distinct halo redshifts
    in increasing order. Building one from raw arrays creates exactly one halo per row carrying that row's values and
    a fresh random tag in [0,1); rendering classes are always held as a list, and a missing rendering centre means zero
    angle at every distance up to the source. Two realizations are equal exactly when each has all tags of the other.""",
    over=['inputs', 'configurations'],
    forall='every population (including the empty one), every row content, every way to give rendering classes and centre',
    tests='no test builds a realization',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.__init__', 'pyHalo/single_realization.py'), ('Realization._reset', 'pyHalo/single_realization.py'),
               ('Realization.set_rendering_classes', 'pyHalo/single_realization.py'), ('SingleHalo', 'pyHalo/single_realization.py')],
)


def mirror(k, label, r):
    hs = r.halos
    k.same(label + ': masses', r.masses, k.map(lambda h: h.mass, hs))
    k.same(label + ': x', r.x, k.map(lambda h: h.x, hs))
    k.same(label + ': y', r.y, k.map(lambda h: h.y, hs))
    k.same(label + ': r3d', r.r3d, k.map(lambda h: h.r3d, hs))
    k.same(label + ': redshifts', r.redshifts, k.map(lambda h: h.z, hs))
    k.same(label + ': mass definitions', r.mdefs, k.map(lambda h: h.mdef, hs))
    k.same(label + ': tags', k.run(k.get(r, '_tags')), k.map(lambda h: h.unique_tag, hs))
    k.same(label + ': subhalo flags', r.subhalo_flags, k.map(lambda h: h.is_subhalo, hs))
    k.same(label + ': lens planes', r.unique_redshifts, k.unique(k.map(lambda h: h.z, hs)))


@contract('from_halos: arrays mirror the halos, settings stored', ['Realization.__init__', 'Realization.from_halos', 'Realization._reset'])
def from_halos(k):
    from pyHalo.single_realization import Realization
    hs = halos(k)
    lc = lens_cosmo(k)
    cx, cy = k.fn('cx', Real(-1, 1)), k.fn('cy', Real(-1, 1))
    rc = k.choice('rc', [['A', 'B'], 'A', None])
    sheet = k.bool('sheet')
    kw = {'kw': 1}
    k.begin()
    r = k.run(Realization.from_halos, hs, lc, kw, sheet, rc, cx, cy, 'GEO')
    k.same('its halos are the given ones', r.halos, hs)
    mirror(k, 'built', r)
    k.same('rendering classes are a list', r.rendering_classes, rc if isinstance(rc, list) else [rc])
    k.check('settings', r.lens_cosmo is lc and r.kwargs_halo_model is kw and r.geometry == 'GEO'
            and r.apply_mass_sheet_correction is sheet and r.astropy_instance is lc.cosmo.astropy)
    k.check('centre', k.get(r, 'rendering_center')[0] is cx and k.get(r, 'rendering_center')[1] is cy)
    k.check('not shifted yet', r._has_been_shifted is False)


@contract('halos without a 3D radius', ['Realization.__init__', 'Realization.from_halos', 'Realization._reset'])
def no_radius(k):
    from pyHalo.single_realization import Realization
    hs = halos(k, r3d=Build(lambda h: None))
    lc = lens_cosmo(k)
    cx, cy = k.fn('cx', Real(-1, 1)), k.fn('cy', Real(-1, 1))
    k.begin()
    r = k.run(Realization.from_halos, hs, lc, {}, True, None, cx, cy, None)
    mirror(k, 'built', r)


@contract('_reset after halos changed', ['Realization._reset'])
def reset(k):
    r = realization(k, halos(k, 'a', 'na'))
    hs = halos(k, 'b', 'nb')
    k.begin()
    r.halos = hs
    k.run(k.get(r, '_reset'))
    k.same('its halos are the given ones', r.halos, hs)
    mirror(k, 'after reset', r)


@contract('default centre is the origin at every distance to the source', ['Realization.__init__'])
def default_center(k):
    from pyHalo.single_realization import Realization
    lc = lens_cosmo(k)
    hs = halos(k)
    given = k.choice('given', ['none', 'x only', 'y only'])
    c = k.fn('cx', Real(-1, 1))
    k.begin()
    r = k.run(Realization.from_halos, hs, lc, {}, True, None, c if given == 'x only' else None, c if given == 'y only' else None, None)
    fx, fy = k.get(r, 'rendering_center')
    k.same('x', [float(v) if not k.sym else v for v in fx.y], [0.0] * 100)
    k.same('y', [float(v) if not k.sym else v for v in fy.y], [0.0] * 100)
    want = [lc.cosmo.D_C_transverse(i * lc.z_source / 99) for i in range(100)]
    k.same('distances x', fx.x, want if k.sym else sorted(want))
    k.same('distances y', fy.x, want if k.sym else sorted(want))


@contract('one halo per row, with the row\'s values', ['Realization.__init__', 'Realization._load_halo_model'], seeds=60, budget=200)
def rows(k):
    from pyHalo.single_realization import Realization
    lc = lens_cosmo(k)
    n = k.size('n', 0)
    arr = lambda name, g: k.array(name, n, g)
    m, x, y, r3 = arr('m', Real(1e5, 1e10)), arr('x', Real(-3, 3)), arr('y', Real(-3, 3)), arr('r3', Real(0, 500))
    z, sub = arr('z', ZH()), arr('sub', Bool())
    mdef = k.choice('mdef', ['NFW', 'TNFW', 'ULDM'])
    same = k.bool('same_models')
    kw = {'kwargs_density_profile': {'a': 1}}
    if same:
        kw.update(truncation_model='T', concentration_model='C')
    else:
        kw.update(truncation_model_subhalos='TS', truncation_model_field_halos='TF',
                  concentration_model_subhalos='CS', concentration_model_field_halos='CF')
    cx, cy = k.fn('cx', Real(-1, 1)), k.fn('cy', Real(-1, 1))
    k.begin()
    if k.sym:
        from engine import seqs as Q
        md = k.amap(lambda v: mdef, m)
    else:
        md = [mdef] * len(m)
    r = k.run(Realization, m, x, y, r3, md, z, sub, lc, kwargs_halo_model=kw, rendering_classes=None, rendering_center_x=cx,
              rendering_center_y=cy)
    hs = r.halos
    k.same('masses', k.map(lambda h: h.mass, hs), m)
    k.same('x', k.map(lambda h: h.x, hs), x)
    k.same('y', k.map(lambda h: h.y, hs), y)
    k.same('r3d', k.map(lambda h: h.r3d, hs), r3)
    k.same('z', k.map(lambda h: h.z, hs), z)
    k.same('kind', k.map(lambda h: h.is_subhalo, hs), sub)
    k.same('mdef', k.map(lambda h: h.mdef, hs), k.map(lambda v: mdef, m))
    k.check('tags in [0,1)', k.forall(lambda h: k.And(h.unique_tag >= 0, h.unique_tag < 1), hs))
    pick = lambda h, both, s, f: both if same else k.ite(h.is_subhalo, s, f)
    k.same('truncation', k.map(lambda h: h._truncation_class, hs), k.map(lambda h: pick(h, 'T', 'TS', 'TF'), hs))
    k.same('concentration', k.map(lambda h: h._concentration_class, hs), k.map(lambda h: pick(h, 'C', 'CS', 'CF'), hs))
    k.check('profile arguments and cosmology', k.forall(lambda h: h._args is kw['kwargs_density_profile'] and h.lens_cosmo is lc, hs))
    mirror(k, 'built', r)


PROFILES = [('NFW', 'NFW', 'NFWSubhhalo', 'NFWFieldHalo'), ('TNFW', 'TNFW', 'TNFWSubhalo', 'TNFWFieldHalo'),
            ('TNFWC_SIDM', 'NFW_core_trunc', 'TNFWCHaloEvolving', 'TNFWCHaloEvolving'), ('PT_MASS', 'blackhole', 'BlackHole', 'BlackHole'),
            ('PJAFFE', 'PsuedoJaffe', 'PJaffeSubhalo', 'PJaffeSubhalo'), ('ULDM', 'ULDM', 'ULDMSubhalo', 'ULDMFieldHalo'),
            ('GAUSSIAN_KAPPA', 'gaussianhalo', 'GaussianHalo', 'GaussianHalo'), ('GNFW', 'generalized_nfw', 'GeneralNFWSubhalo', 'GeneralNFWFieldHalo'),
            ('SPL_CORE', 'powerlaw', 'PowerLawSubhalo', 'PowerLawFieldHalo')]


@contract('each named profile gives halos of its kind, other names are refused', ['Realization.__init__', 'Realization._load_halo_model'], seeds=60, again=False)
def profiles(k):
    import importlib
    from pyHalo.single_realization import Realization
    lc = lens_cosmo(k)
    which = k.choice('profile', list(range(len(PROFILES))) + ['unknown'])
    vals = {q: k.real(q, g) for q, g in (('mass', Real(1e5, 1e10)), ('x', Real(-3, 3)), ('y', Real(-3, 3)), ('r3d', Real(0, 500)), ('z', ZH()))}
    sub = k.bool('sub')
    made = []
    for name, module, *classes in PROFILES:
        m = importlib.import_module('pyHalo.Halos.HaloModels.' + module)
        for cl in set(classes):
            def make(cl=cl, name=name, **kw):
                made.append((name, cl, kw))
                return k.obj(mass=kw['mass'], x=kw['x'], y=kw['y'], r3d=kw['r3d'], z=kw['z'], mdef=name, unique_tag=kw['unique_tag'],
                             is_subhalo=kw['sub_flag'])
            k.override(getattr(m, cl), make)
    args = {'a': 1}
    kw = {'kwargs_density_profile': args, 'truncation_model_subhalos': 'TS', 'truncation_model_field_halos': 'TF',
          'concentration_model_subhalos': 'CS', 'concentration_model_field_halos': 'CF'}
    c = k.fn('cx', Real(-1, 1))
    k.begin()
    name = 'tnfw' if which == 'unknown' else PROFILES[which][0]
    out = k.call(Realization, [vals['mass']], [vals['x']], [vals['y']], [vals['r3d']], [name], [vals['z']], [sub], lc, kwargs_halo_model=kw,
                 rendering_classes=None, rendering_center_x=c, rendering_center_y=c)
    if which == 'unknown':
        k.check('refused', out.raised(Exception) and made == [])
        return
    k.check('created', out.ok and len(made) == 1)
    got = made[0]
    k.check('profile', got[0] == name)
    k.same('class of subhalos and of field halos', got[1], k.ite(sub, PROFILES[which][2], PROFILES[which][3]))
    for q in vals:
        k.same(q, got[2][q], vals[q])
    k.same('subhalo', got[2]['sub_flag'], sub)
    k.check('options', got[2]['args'] is args and got[2]['lens_cosmo_instance'] is lc)
    k.same('truncation', got[2]['truncation_class'], k.ite(sub, 'TS', 'TF'))
    k.same('concentration', got[2]['concentration_class'], k.ite(sub, 'CS', 'CF'))


@contract('equality: the same tags', ['Realization.__eq__'])
def equal(k):
    lc = lens_cosmo(k)
    a, b = realization(k, halos(k, 'a', 'na'), lc, ' 1st'), realization(k, halos(k, 'b', 'nb'), lc, ' 2nd')
    k.begin()
    r = k.run(k.get(a, '__eq__'), b)
    has = lambda h, hs: k.exists(lambda o: k.Eq(o.unique_tag, h.unique_tag), hs)
    k.eq('equal iff mutual inclusion of tags', r, k.And(k.forall(lambda h: has(h, a.halos), b.halos),
                                                       k.forall(lambda h: has(h, b.halos), a.halos)))


@contract('a single-halo realization', ['SingleHalo.__init__'])
def single(k):
    from pyHalo.single_realization import SingleHalo
    lc = lens_cosmo(k)
    m, x, y, z = k.real('m', Real(1e5, 1e10)), k.real('x', Real(-3, 3)), k.real('y', Real(-3, 3)), k.real('z', ZH())
    sub, r3 = k.bool('sub'), k.real('r3', Real(0, 100))
    kw = {'kwargs_density_profile': {}, 'truncation_model': 'T', 'concentration_model': 'C'}
    k.begin()
    r = k.run(SingleHalo, m, x, y, 'TNFW', z, lc.z_lens, lc.z_source, r3, sub, kw, None, lc)
    k.same('row', [r.masses, r.x, r.y, r.redshifts, r.r3d, r.mdefs, r.subhalo_flags],
           [[m], [x], [y], [z], [r3], ['TNFW'], [sub]])
    k.check('no mass sheet', r.apply_mass_sheet_correction is False)
    k.check('one halo', len(r.halos) == 1)
    mirror(k, 'built', r)
