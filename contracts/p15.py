"""rendering of halo populations"""
from engine.api import contract
from engine.kit import Real, Int
from .common import posgen, lens_cosmo

PROPERTY = dict(
    title='Rendered populations are complete and aligned, plane by plane',
    statement="""Line-of-sight rendering draws every lens plane's mass function (with that plane's redshift, thickness and mass range)
    and position distribution once, and returns masses, positions (physical kpc converted to arcsec at the plane), redshifts and
    flags as equally long, aligned lists in plane order, none of them flagged as subhalos. Subhalos all sit at the lens redshift,
    flagged as subhalos, with their own 3D radii; two-halo objects at the lens redshift are not flagged. A combined population
    is the concatenation of its parts in the requested order, and unknown names are refused.""",
    over=['inputs', 'configurations', 'random outcomes'],
    forall='every list of planes (including planes that get no halo), every draw count, every combination of populations',
    tests='the rendering tests cannot run without the lensing library; alignment must hold for every draw, also empty planes',
    files=['pyHalo/Rendering/rendering_class_base.py', 'pyHalo/Rendering/line_of_sight.py', 'pyHalo/Rendering/subhalos.py',
           'pyHalo/Rendering/two_halo.py', 'pyHalo/Rendering/halo_population.py'],
    mechanism=[('LineOfSightNoSheet.render', 'pyHalo/Rendering/line_of_sight.py'), ('Subhalos.render', 'pyHalo/Rendering/subhalos.py'),
               ('TwoHaloContribution.render', 'pyHalo/Rendering/two_halo.py'),
               ('HaloPopulation', 'pyHalo/Rendering/halo_population.py'),
               ('RenderingClassBase.render_positions_at_z', 'pyHalo/Rendering/rendering_class_base.py')],
)


class Setup(object):
    """mass function and spatial distribution whose draws are arbitrary functions of the plane and the draw's position"""

    def __init__(self, k, three=False, name='ANY'):
        self.k = k
        self.count = k.fn('drawn', Int(0, 3))
        self.fm = k.fn('mass', Real(0, None, lo_open=True) if k.sym else Real(1e6, 1e10, log=True))
        self.fx, self.fy, self.fr = k.fn('x_kpc', Real(-50, 50)), k.fn('y_kpc', Real(-50, 50)), k.fn('r_kpc', Real(0, 300))
        self.scale = k.fn('kpc_per_arcsec', posgen(k, 0.1, 10.0))
        self.three, self.calls = three, []

        def draw(n, z, *a, **kw):
            ij = k.run(range, n)
            out = [k.amap(lambda i, f=f: f(z, i), ij) for f in (self.fx, self.fy, self.fr)]
            return tuple(out if three else out[:2])
        self.spatial = k.obj(draw=draw, name=name)
        self.geometry = k.obj(kpc_per_arcsec=self.scale)

    def masses(self, *key):
        k = self.k
        return k.amap(lambda i: self.fm(*(list(key) + [i])), k.run(range, self.count(*key)))

    def model(self, check=None):
        """mass function class: the halos drawn depend on redshift, thickness and mass range"""
        def from_redshift(z, dz, geometry, kw):
            if check is not None:
                check(z, dz, geometry, kw)
            return self.k.obj(draw=lambda: self.masses(z, dz, kw['log_mlow'], kw['log_mhigh']))
        return self.k.obj(from_redshift=from_redshift)


@contract('line-of-sight rendering', ['LineOfSightNoSheet.render', 'LineOfSightNoSheet._get_mass_function_model',
                                      'RenderingClassBase.render_positions_at_z', 'RenderingClassBase._redshift_dependent_mass_range'])
def los(k):
    from pyHalo.Rendering.line_of_sight import LineOfSightNoSheet
    s = Setup(k)
    n = k.size('planes', 0)
    zs, dz = k.list('z', n, Real(0.01, 3)), k.list('dz', n, Real(0.01, 0.1))
    lo, hi = k.real('lo', Real(5, 7)), k.real('hi', Real(8, 10))
    flo, fhi = k.fn('lo_z', Real(5, 7)), k.fn('hi_z', Real(8, 10))
    dlo, dhi = k.choice('mass range depends on redshift', [(False, False), (True, True), (True, False), (False, True)])
    kw = {'log_mlow': flo if dlo else lo, 'log_mhigh': fhi if dhi else hi, 'other': 1}
    r = k.run(LineOfSightNoSheet, s.model(), kw, s.spatial, s.geometry, 'LENS', zs, dz)
    k.begin()
    m, x, y, r3d, z, flag = k.run(r.render)
    planes = k.zip(zs, dz)

    def key(p):
        return (p[0], p[1], flo(p[0]) if dlo else lo, fhi(p[0]) if dhi else hi)
    rng = lambda p: k.run(range, s.count(*key(p)))
    k.same('masses', m, k.flatmap(lambda p: k.map(lambda i: s.fm(*(key(p) + (i,))), rng(p)), planes))
    k.same('x', x, k.flatmap(lambda p: k.map(lambda i: s.fx(p[0], i) / s.scale(p[0]), rng(p)), planes))
    k.same('y', y, k.flatmap(lambda p: k.map(lambda i: s.fy(p[0], i) / s.scale(p[0]), rng(p)), planes))
    k.same('redshifts', z, k.flatmap(lambda p: k.map(lambda i: p[0], rng(p)), planes))
    flags(k, m, r3d, flag, False)
    k.check('no 3D radius', k.forall(lambda v: v is None, r3d))


def flags(k, m, r3d, flag, value):
    k.eq('one flag per halo', k.len(flag), k.len(m))
    k.eq('one 3D radius per halo', k.len(r3d), k.len(m))
    k.check('subhalo flags', k.forall(lambda v: v is value or v == value, flag))


@contract('positions at one redshift', ['RenderingClassBase.render_positions_at_z'])
def positions(k):
    from pyHalo.Rendering.rendering_class_base import RenderingClassBase
    s = Setup(k)
    r = k.run(RenderingClassBase, 'MODEL', {'draw_poisson': False}, s.spatial, s.geometry, 'LENS', [], [])
    z = k.real('z', Real(0.01, 3))
    n = k.int('n', 0, 4)
    k.begin()
    x, y = k.run(r.render_positions_at_z, z, n)
    k.same('x', x, k.map(lambda i: s.fx(z, i) / s.scale(z), k.run(range, n)))
    k.same('y', y, k.map(lambda i: s.fy(z, i) / s.scale(z), k.run(range, n)))
    k.check('Poisson switch kept', r._kwargs_mass_function['draw_poisson'] is False)
    r2 = k.run(RenderingClassBase, 'MODEL', {}, s.spatial, s.geometry, 'LENS', [], [])
    k.check('Poisson switch on by default', r2._kwargs_mass_function['draw_poisson'] is True)


@contract('subhalo rendering', ['Subhalos.render', 'Subhalos.render_positions_at_z'])
def subhalos(k):
    from pyHalo.Rendering.subhalos import Subhalos
    uniform = k.choice('uniform', [False, True])
    s = Setup(k, three=not uniform, name='UNIFORM' if uniform else 'PROJECTEDNFW')
    zl = k.real('z_lens', Real(0.05, 2))
    r = k.new(Subhalos, _spatial_distribution_model=s.spatial, _geometry=s.geometry, _lens_cosmo=k.obj(z_lens=zl))
    r._get_mass_function_model = lambda: k.obj(draw=lambda: s.masses(zl))
    k.begin()
    m, x, y, r3d, z, flag = k.run(r.render)
    rng = k.run(range, s.count(zl))
    k.same('masses', m, k.map(lambda i: s.fm(zl, i), rng))
    k.same('x', x, k.map(lambda i: s.fx(zl, i) / s.scale(zl), rng))
    k.same('y', y, k.map(lambda i: s.fy(zl, i) / s.scale(zl), rng))
    k.same('redshifts', z, k.map(lambda i: zl, rng))
    flags(k, m, r3d, flag, True)
    if uniform:
        k.check('no 3D radius', k.forall(lambda v: v is None, r3d))
    else:
        k.same('3D radii', r3d, k.map(lambda i: s.fr(zl, i), rng))


@contract('two-halo rendering', ['TwoHaloContribution.render'])
def two_halo(k):
    from pyHalo.Rendering.two_halo import TwoHaloContribution
    s = Setup(k)
    zl, dz = k.real('z_lens', Real(0.05, 2)), k.real('dz', Real(0.01, 0.1))
    lo, hi = k.real('lo', Real(5, 7)), k.real('hi', Real(8, 10))
    r = k.new(TwoHaloContribution, _spatial_distribution_model=s.spatial, _geometry=s.geometry, _lens_cosmo=k.obj(z_lens=zl), _delta_z=dz,
              _kwargs_mass_function={'log_mlow': lo, 'log_mhigh': hi}, _mass_function_model=s.model())
    k.begin()
    m, x, y, r3d, z, flag = k.run(r.render)
    rng = k.run(range, s.count(zl, dz, lo, hi))
    k.same('masses', m, k.map(lambda i: s.fm(zl, dz, lo, hi, i), rng))
    k.same('x', x, k.map(lambda i: s.fx(zl, i) / s.scale(zl), rng))
    k.same('y', y, k.map(lambda i: s.fy(zl, i) / s.scale(zl), rng))
    k.same('redshifts', z, k.map(lambda i: zl, rng))
    flags(k, m, r3d, flag, False)
    k.check('no 3D radius', k.forall(lambda v: v is None, r3d))


@contract('combined populations', ['HaloPopulation.__init__', 'HaloPopulation.render'])
def population(k):
    import pyHalo.Rendering.halo_population as hp
    names = ['SUBHALOS', 'LINE_OF_SIGHT', 'LINE_OF_SIGHT_NOSHEET', 'TWO_HALO']
    order = k.choice('populations', [['SUBHALOS', 'LINE_OF_SIGHT'], ['LINE_OF_SIGHT_NOSHEET', 'TWO_HALO', 'SUBHALOS'], ['TWO_HALO'], []])
    parts, made = {}, []
    for name in names:
        n = k.size('n_' + name, 0)
        parts[name] = [k.array(a + name, n, Real(0.1, 10)) for a in ('mass', 'x', 'y', 'r3d', 'z')] + [name == 'SUBHALOS', n]

    def build(cls, name):
        def make(*args):
            p = parts[name]
            made.append((name, args))
            return k.obj(kind=name, render=lambda: (p[0], p[1], p[2], p[3], p[4], k.map(lambda v: p[5], p[0])))
        k.override(cls, make)
    for cls, name in ((hp.Subhalos, 'SUBHALOS'), (hp.LineOfSight, 'LINE_OF_SIGHT'), (hp.LineOfSightNoSheet, 'LINE_OF_SIGHT_NOSHEET'),
                      (hp.TwoHaloContribution, 'TWO_HALO')):
        build(cls, name)

    class Spatial(object):
        name = 'PROJECTEDNFW'

        def __init__(self, how='init', **kw):
            self.how, self.kw = how, kw

        @classmethod
        def from_Mhost(cls, **kw):
            return cls('from_Mhost', **kw)

    class Flat(Spatial):
        name = k.choice('flat', ['UNIFORM', 'LENS_CONE_UNIFORM'])
    mf = ['MF%d' % i for i in range(len(order))]
    kw = [{'mass_option': i} for i in range(len(order))]
    flat = k.choice('flat subhalos', [False, True])
    sp = [Flat if flat or name != 'SUBHALOS' else Spatial for name in order]
    ks = [{'option': i} for i in range(len(order))]
    k.begin()
    pop = k.run(hp.HaloPopulation, order, mf, kw, sp, ks, 'LENS', 'GEOMETRY', 'PLANES', 'SPACINGS', 'LAZAR', 'BOOST')
    k.check('one population per name, in order', [n for n, _ in made] == order and [c.kind for c in pop.rendering_classes] == order)
    for i, (name, a) in enumerate(made):
        k.check('mass function and its options', a[0] == mf[i] and a[1] == kw[i])
        k.check('spatial distribution options', type(a[2]) is sp[i] and a[2].kw == ks[i])
        k.check('subhalos follow the host', a[2].how == ('from_Mhost' if name == 'SUBHALOS' and not flat else 'init'))
        k.check('lens and geometry', a[3] == 'GEOMETRY' and a[4] == 'LENS')
        k.check('planes', tuple(a[5:]) == (() if name == 'SUBHALOS' else ('PLANES', 'SPACINGS') + (('LAZAR', 'BOOST') if name == 'TWO_HALO' else ())))
    out = k.run(pop.render)
    for j, label in enumerate(['masses', 'x', 'y', '3D radii', 'redshifts']):
        k.same(label, out[j], k.concat(*[k.parts(parts[n][j]) for n in order]))
    k.same('subhalo flags', out[5], k.concat(*[k.map(lambda v, n=n: parts[n][5], parts[n][0]) for n in order]))


@contract('unknown population names are refused', ['HaloPopulation.__init__'])
def unknown(k):
    import pyHalo.Rendering.halo_population as hp

    class Flat(object):
        name = 'UNIFORM'
    k.begin()
    out = k.call(hp.HaloPopulation, ['LINE_OF_SITE'], ['MF'], [{}], [Flat], [{}], 'LENS', 'GEOMETRY', 'PLANES', 'SPACINGS')
    k.check('refused', out.raised(Exception))
