"""structure correlated with the halos; primordial black holes"""
import numpy as np
from engine.api import contract
from engine.kit import Real, Int, Bool
from .common import posgen, halos, realization, lens_cosmo

PROPERTY = dict(
    title='Correlated structure and black holes: mass conserved, placed around the rays',
    statement="""Objects that trace the halos of each lens plane carry the requested fraction of the halo mass projected inside the
    aperture around each ray, are drawn in proportion to the projected density, keep the positions drawn for them, and the halos inside
    the aperture lose that fraction once, however many rays pass them; other halos keep their normalization. Smooth black holes fill
    each plane inside the rendering radius of each ray with the remaining fraction of the dark matter density, with the requested mass
    function. The parent realization and its halos are not changed.""",
    over=['inputs', 'random outcomes'],
    forall='every realization, mass function, set of rays, aperture, pixel size and random outcome',
    tests='every test of this code needs the lensing library and is skipped or fails without it',
    files=['pyHalo/Rendering/correlated_structure.py', 'pyHalo/Rendering/SpatialDistributions/correlated.py',
           'pyHalo/realization_extensions.py'],
    mechanism=[('CorrelatedStructure', 'pyHalo/Rendering/correlated_structure.py'),
               ('Correlated2D.draw', 'pyHalo/Rendering/SpatialDistributions/correlated.py'),
               ('add_correlated_structure, add_primordial_black_holes', 'pyHalo/realization_extensions.py')],
)


@contract('masses', ['CorrelatedStructure.render_masses_at_z', 'DeltaFunction.__init__', 'DeltaFunction.draw', 'Gaussian.__init__', 'Gaussian.draw'])
def masses(k):
    from pyHalo.Rendering.correlated_structure import CorrelatedStructure
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    cls = k.choice('mass function', [DeltaFunction, Gaussian, None])
    f, lm, s = k.real('mass_fraction', Real(0, 1, pool=(0.0, 1.0))), k.real('logM', Real(3, 7)), k.real('logM_sigma', Real(0, 0.6, pool=(0.0,)))
    total = k.real('mass_in_area', Real(0, 1e7, pool=(0.0,)))
    poisson = k.bool('draw_poisson')
    r = k.new(CorrelatedStructure, _mass_function_model=cls or k.obj(name='POWER_LAW'),
              _kwargs_mass_function={'mass_fraction': f, 'logM': lm, 'logM_sigma': s, 'draw_poisson': poisson})
    k.begin()
    o = k.call(r.render_masses_at_z, total)
    if cls is None:
        k.check('refused', o.raised(Exception))
        return
    m, factor = o.value
    k.eq('fraction left in the halos', factor, 1 - f)
    mean = f * total / (10 ** lm if cls is DeltaFunction else k.exp(k.log(10 ** lm) + k.log(10 ** s) ** 2 / 2))
    if poisson:
        k.eq('mean number', k.draws[0].params[0], mean)
        n = k.std(0, 'poisson')
    else:
        k.assume(k.Or(mean - k.round(mean) < 0.49, mean - k.round(mean) > 0.51) if not k.sym else True)
        n = k.round(mean)
    k.eq('number', k.len(m), n)
    if cls is DeltaFunction:
        k.check('mass', k.forall(lambda v: k.And(v >= 10 ** lm * (1 - 1e-12), v <= 10 ** lm * (1 + 1e-12)), m))
    elif n >= 1:
        k.same('log-normal masses', m, k.amap(lambda t: 10 ** (lm + s * t), k.std(1 if poisson else 0, 'Z')))


@contract('one plane', ['CorrelatedStructure.render_at_z'], again=False)
def plane(k):
    from pyHalo.Rendering.correlated_structure import CorrelatedStructure
    kpc = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    fx, fy, fm = k.fn('fx', Real(-10, 10)), k.fn('fy', Real(-10, 10)), k.fn('fm', posgen(k, 1e4, 1e6))
    cnt = k.fn('count', Int(0, 3))
    near = k.size('near', 0, 3)
    z, x0, y0, rmax, pix = k.real('z', Real(0.05, 2)), k.real('x', Real(-2, 2)), k.real('y', Real(-2, 2)), k.real('rmax', Real(0.01, 1)), k.real('pix', Real(0.001, 0.1))
    mass, f = k.real('mass_in_area', Real(0, 1e8)), k.real('factor', Real(0, 1))

    def draw(n, r, pdf, zz, sx, sy):
        k.check('draws around the ray', k.And(r is rmax, pdf == 'PDF', zz is z, sx is x0, sy is y0))
        k.eq('one position per object', n, cnt(mass))
        rng = k.run(range, n)
        return k.amap(lambda i: fx(i), rng), k.amap(lambda i: fy(i), rng)
    r = k.new(CorrelatedStructure, _cylinder_geometry=k.obj(kpc_per_arcsec=kpc), _spatial_distribution_model=k.obj(draw=draw))
    asked = []
    r._kappa_at_lens_plane = lambda *a: (asked.append(a), ('PDF', mass, k.map(lambda i: i + 5, k.run(range, near))))[1]
    r.render_masses_at_z = lambda m: (k.amap(lambda i: fm(m, i), k.run(range, cnt(m))), f)
    k.begin()
    m, x, y, inds, factor = k.run(r.render_at_z, z, x0, y0, rmax, pix)
    k.check('the map of this aperture', len(asked) == 1 and all(p is q for p, q in zip(asked[0], (z, x0, y0, rmax, pix))))
    if k.Or(k.Eq(near, 0), k.Eq(cnt(mass), 0)):
        k.check('nothing', len(m) == 0 and len(x) == 0 and len(y) == 0)
        k.eq('halos keep their mass', factor, 1)
        return
    rng = k.run(range, cnt(mass))
    k.same('masses', m, k.map(lambda i: fm(mass, i), rng))
    k.same('x', x, k.map(lambda i: fx(i) / kpc(z), rng))
    k.same('y', y, k.map(lambda i: fy(i) / kpc(z), rng))
    k.same('halos', inds, k.map(lambda i: i + 5, k.run(range, near)))
    k.eq('fraction left', factor, f)


@contract('all planes', ['CorrelatedStructure.render'], again=False)
def render(k):
    from pyHalo.Rendering.correlated_structure import CorrelatedStructure
    fx, fy, fm = k.fn('fx', Real(-10, 10)), k.fn('fy', Real(-10, 10)), k.fn('fm', posgen(k, 1e4, 1e6))
    cnt = k.fn('count', Int(0, 3))
    n = k.size('planes', 1, 4)
    zs = k.list('z', n, Real(0.05, 2, pool=(0.2, 0.5), tie='z'))
    h = k.size('halos', 0, 5)
    hz, hx, hy = k.array('hz', h, Real(0.05, 2, pool=(0.2, 0.5), tie='z')), k.array('hx', h, Real(-1, 1)), k.array('hy', h, Real(-1, 1))
    D, X, Y = k.fn('D', posgen(k, 100, 3000)), k.fn('ray_x', Real(-1, 1)), k.fn('ray_y', Real(-1, 1))
    f, rmax = k.real('factor', Real(0, 0.9)), k.real('rmax', Real(0.1, 1.5))
    r = k.new(CorrelatedStructure, _realization=k.obj(unique_redshifts=zs, lens_cosmo=k.obj(z_source=3.0)), _halo_redshifts=hz, _halo_x=hx,
              _halo_y=hy, _lens_cosmo=k.obj(cosmo=k.obj(D_C_transverse=D)))

    def at_z(z, x, y, rm, pix):
        k.check('the aperture', k.And(rm is rmax, pix == 'PIX', k.Eq(x, X(D(z))), k.Eq(y, Y(D(z)))))
        rng = k.run(range, cnt(z))
        return (k.amap(lambda i: fm(z, i), rng), k.amap(lambda i: fx(z, i), rng), k.amap(lambda i: fy(z, i), rng), ['IND'],
                k.ite(cnt(z) > 0, f, 1.0))
    r.render_at_z = at_z
    k.begin()
    m, x, y, r3d, z, flag, factor, idx = k.run(r.render, rmax, X, Y, 'PIX')
    rng = lambda z: k.run(range, cnt(z))
    k.same('masses', m, k.flatmap(lambda z: k.map(lambda i: fm(z, i), rng(z)), zs))
    k.same('x', x, k.flatmap(lambda z: k.map(lambda i: fx(z, i), rng(z)), zs))
    k.same('y', y, k.flatmap(lambda z: k.map(lambda i: fy(z, i), rng(z)), zs))
    k.same('redshifts', z, k.flatmap(lambda z: k.map(lambda i: z, rng(z)), zs))
    k.eq('one flag per object', k.len(flag), k.len(m))
    k.eq('one 3D radius per object', k.len(r3d), k.len(m))
    k.check('not subhalos', k.forall(lambda v: v is False or v == False, flag))
    k.eq('fraction left', factor, k.ite(k.exists(lambda z: cnt(z) > 0, zs), f, 1.0))
    inside = lambda z, q: k.And(k.Eq(q[1][0], z), k.run(np.hypot, q[1][1] - X(D(z)), q[1][2] - Y(D(z))) < rmax)
    pts = k.index(k.zip(hz, k.zip(hx, hy)))
    pts = k.map(lambda q: (q[0], (q[1][0], q[1][1][0], q[1][1][1])), pts)
    k.check('only halos near the ray', k.forall(lambda i: k.exists(lambda z: k.exists(lambda q: k.And(inside(z, q), k.Eq(q[0], i)), pts), zs), idx))
    k.check('all halos near the ray', k.forall(lambda z: k.forall(lambda q: k.Or(k.Not(inside(z, q)), k.exists(lambda i: k.Eq(q[0], i), idx)), pts), zs))


@contract('rescaling of halos near any ray', ['RealizationExtensions.add_correlated_structure'], seeds=60)
def extension(k):
    import pyHalo.realization_extensions as re
    images = k.choice('images', [1, 2])
    near = [[k.bool('near%d%d' % (i, j)) for j in range(2)] for i in range(images)]
    f = k.real('factor', Real(0, 0.9))
    cnt = [k.size('n%d' % i, 0, 3) for i in range(images)]
    rescale = k.bool('rescale_normalizations')
    per_image = k.bool('radius per image')
    rmax = [k.real('rmax%d' % i, Real(0.1, 1)) for i in range(images)]
    if not per_image:
        rmax = [rmax[0]] * images
    fm, fx, fy, fz = [k.fn(q, g) for q, g in (('fm', posgen(k, 1e4, 1e6)), ('fx', Real(-1, 1)), ('fy', Real(-1, 1)), ('fz', Real(0.1, 2)))]
    log, made, joined = [], [], []

    def halo(j, who):
        return k.obj(rescale_normalization=lambda v, **kw: log.append((who, j, v, kw)))
    lens = k.obj(z_lens=0.5, z_source=2.0)
    parent = k.obj(lens_cosmo=lens, geometry='GEOMETRY', halos=[halo(j, 'parent') for j in range(2)])
    twin = k.obj(halos=[halo(j, 'copy') for j in range(2)], join=lambda o: ('JOINED', o))
    k.override(re.deepcopy, lambda x: twin)
    built = []

    def structure(*a):
        built.append(a)

        def render(rm, x, y, pix):
            i = x
            k.check('radius of the image', k.And(k.Eq(rm, rmax[i]), y == i, pix == 'PIX'))
            rng = k.run(range, cnt[i])
            sel = []
            for j in range(2):
                if near[i][j]:
                    sel.append(j)
            return (k.amap(lambda q: fm(i, q), rng), k.amap(lambda q: fx(i, q), rng), k.amap(lambda q: fy(i, q), rng), k.amap(lambda q: None, rng),
                    k.amap(lambda q: fz(i, q), rng), k.map(lambda q: False, rng), k.ite(cnt[i] > 0, f, 1.0), np.array(sel, dtype=int))
        return k.obj(render=render)
    k.override(re.CorrelatedStructure, structure)

    def realization(*a, **kw):
        i = len(made)
        made.append((a, kw))
        return k.obj(name='R%d' % i, join=lambda o: (joined.append((i, o)), k.obj(name='both', join=None))[1])
    k.override(re.Realization, realization)
    ext = k.new(re.RealizationExtensions, _realization=parent)
    k.begin()
    out = k.run(ext.add_correlated_structure, 'MODEL', {'mass_fraction': 0.1}, 'PT_MASS', list(range(images)), list(range(images)), 'PIX',
                rmax if per_image else rmax[0], rescale)
    k.check('traces the parent realization', len(built) == 1 and built[0][0] == 'MODEL' and built[0][2] == 'GEOMETRY'
            and built[0][3] is lens and built[0][6] is parent)
    k.check('one population per image', len(made) == images)
    for i in range(images):
        a, kw = made[i]
        rng = k.run(range, cnt[i])
        k.same('masses', a[0], k.map(lambda q: fm(i, q), rng))
        k.same('x', a[1], k.map(lambda q: fx(i, q), rng))
        k.same('y', a[2], k.map(lambda q: fy(i, q), rng))
        k.eq('profiles', k.len(a[4]), cnt[i])
        k.check('profile', k.forall(lambda v: v == 'PT_MASS', a[4]))
        k.same('redshifts', a[5], k.map(lambda q: fz(i, q), rng))
        k.check('lens', a[7] is lens)
    k.check('populations joined', len(joined) == images - 1)
    k.check('joined to a copy of the parent', out[0] == 'JOINED' and out[1].name == ('R0' if images == 1 else 'both'))
    k.check('parent halos untouched', all(q[0] == 'copy' for q in log))
    some = k.Or(*[c > 0 for c in cnt])
    for j in range(2):
        mine = [q for q in log if q[1] == j]
        hit = False
        for i in range(images):
            if near[i][j]:
                hit = True
        k.check('halos near a ray once, others not at all', len(mine) == (1 if (hit and rescale) else 0))
        for q in mine:
            k.eq('by the fraction left', q[2], k.ite(some, f, 1.0))
            k.check('whatever happened before', q[3] == {'log': False, 'force': True})


@contract('smooth black holes', ['RealizationExtensions.add_primordial_black_holes'], seeds=60)
def pbh(k):
    import pyHalo.realization_extensions as re
    images = k.choice('images', [1, 2])
    kind = k.choice('mass function', ['DELTA', 'GAUSSIAN', 'OTHER'])
    n = k.size('planes', 1, 4)
    zs = k.list('z', n, Real(0.05, 2))
    zsrc = k.real('z_source', Real(2, 4))
    fpbh, fh, lm, s = k.real('f_pbh', Real(0, 1, pool=(0.0, 1.0))), k.real('f_halo', Real(0, 1, pool=(0.0, 1.0))), k.real('logM', Real(3, 7)), k.real('sigma', Real(0, 0.6))
    rmax = [k.real('rmax%d' % i, Real(0.1, 1)) for i in range(images)]
    D, rho = k.fn('D', posgen(k, 100, 3000)), k.real('rho', Real(1e9, 1e11))
    X, Y = k.fn('ray_x', Real(-1, 1)), k.fn('ray_y', Real(-1, 1))
    scale, vol, kpc = k.fn('rendering_scale', Real(0, 1)), k.fn('volume', posgen(k, 1e-6, 1e-4)), k.fn('kpc_per_arcsec', posgen(k, 1, 10))
    cnt, fm = k.fn('count', Int(0, 3)), k.fn('mass', posgen(k, 1e4, 1e6))
    fx, fy = k.fn('fx', Real(-10, 10)), k.fn('fy', Real(-10, 10))
    lens = k.obj(z_lens=0.5, z_source=zsrc, cosmo=k.obj(D_C_transverse=D, rho_dark_matter_crit=rho))
    geos = []

    def geometry(cosmo, zl, zsrc_, theta, shape):
        geos.append((zl, zsrc_, theta, shape))
        return k.obj(rendering_scale=lambda z: scale(z), volume_element_comoving=lambda z, dz: vol(theta, z, dz), kpc_per_arcsec=kpc)
    k.override(re.Geometry, geometry)

    def delta(m, v, r, draw_poisson=False):
        k.check('Poisson numbers', draw_poisson is True)
        return k.obj(draw=lambda: k.amap(lambda i: fm(m, v * r / m, i), k.run(range, cnt(m, v * r / m))))

    def gauss(num, mean, sig, draw_poisson=False):
        k.check('Poisson numbers', k.And(draw_poisson is True, mean is lm, sig is s))
        return k.obj(draw=lambda: k.amap(lambda i: fm(mean, num, i), k.run(range, cnt(mean, num))))
    orig = {'DELTA': (re.DeltaFunction, delta), 'GAUSSIAN': (re.Gaussian, gauss)}
    k.override(re.DeltaFunction, delta)
    k.override(re.Gaussian, gauss)

    def uniform(r, g):
        def draw(m, z, center_x=0, center_y=0):
            rng = k.run(range, m)
            return (k.amap(lambda i: kpc(z) * (center_x + r * fx(z, i)), rng), k.amap(lambda i: kpc(z) * (center_y + r * fy(z, i)), rng))
        return k.obj(draw=draw)
    k.override(re.Uniform, uniform)
    made = []
    k.override(re.Realization, lambda *a, **kw: (made.append((a, kw)), 'SMOOTH')[1])
    ext = k.new(re.RealizationExtensions, _realization=k.obj(lens_cosmo=lens, unique_redshifts=zs))
    asked = []
    ext.add_correlated_structure = lambda *a: (asked.append(a), k.obj(join=lambda o: ('JOINED', o)))[1]
    rays = [((lambda d, i=i: X(d, i)), (lambda d, i=i: Y(d, i))) for i in range(images)]
    k.begin()
    args = [fpbh, lm, fh, [a for a, _ in rays], [b for _, b in rays], rmax]
    o = k.call(ext.add_primordial_black_holes, *args, mass_function_type=kind, logM_pbh_sigma=s)
    if kind == 'OTHER':
        k.check('refused', o.raised(ValueError))
        return
    k.check('joined with the clustered ones', o.value[0] == 'JOINED' and o.value[1] == 'SMOOTH')
    mean = 10 ** lm if kind == 'DELTA' else k.exp(k.log(10 ** lm) + k.log(10 ** s) ** 2 / 2)
    head = 10 ** lm if kind == 'DELTA' else lm
    planes = k.zip(zs, k.concat(k.map(lambda i: k.at(zs, i + 1) - k.at(zs, i), k.run(range, n - 1)), [zsrc - k.at(zs, n - 1)]))
    num = lambda i, p: vol(2 * rmax[i], p[0], p[1]) * (((1 - fh) * fpbh) * rho) / mean
    rng = lambda i, p: k.run(range, cnt(head, num(i, p)))
    each = lambda g: k.concat(*[k.flatmap(lambda p: k.map(lambda q: g(i, p, q), rng(i, p)), planes) for i in range(images)])
    a, kw = made[0]
    k.same('masses', a[0], each(lambda i, p, q: fm(head, num(i, p), q)))
    k.same('x', a[1], each(lambda i, p, q: X(D(p[0]), i) + rmax[i] * scale(p[0]) * fx(p[0], q)))
    k.same('y', a[2], each(lambda i, p, q: Y(D(p[0]), i) + rmax[i] * scale(p[0]) * fy(p[0], q)))
    k.same('redshifts', a[5], each(lambda i, p, q: p[0]))
    k.check('point masses in this lens', k.forall(lambda v: v == 'PT_MASS', a[4]) and a[7] is lens)
    k.eq('one profile each', k.len(a[4]), k.len(a[0]))
    for i in range(images):
        k.check('volume around each ray', geos[i][0] == 0.5 and geos[i][1] is zsrc and geos[i][3] == 'DOUBLE_CONE')
        k.eq('cone of each ray', geos[i][2], 2 * rmax[i])
    b = asked[0]
    k.check('clustered: mass function', len(asked) == 1 and any(b[0] is q for q in orig[kind]))
    k.eq('clustered: mass fraction', b[1]['mass_fraction'], fpbh * fh)
    k.eq('clustered: mass', b[1]['logM'], lm)
    if kind == 'GAUSSIAN':
        k.eq('clustered: scatter', b[1]['logM_sigma'], s)
    k.check('clustered: point masses along the same rays', b[2] == 'PT_MASS' and len(b[3]) == images and all(b[3][i] is rays[i][0] and b[4][i] is rays[i][1]
                                                                                                           for i in range(images)))


@contract('mass inside the aperture', ['CorrelatedStructure._kappa_at_lens_plane', 'CorrelatedStructure._mass_in_area'], sym=False, seeds=40)
def aperture(k):
    import pyHalo.Rendering.correlated_structure as cs
    z, x0, y0 = k.real('z', Real(0.05, 2)), k.real('x', Real(-2, 2, pool=(0.0,))), k.real('y', Real(-2, 2, pool=(0.0,)))
    r, pix = k.real('rmax', Real(0.05, 1)), k.real('pix', Real(0.01, 0.2))
    sc = k.fn('sigma_crit_arcsec', posgen(k, 1e9, 1e11))
    a, b, hole = k.real('slope', Real(0.5, 3)), k.real('norm', Real(0.01, 1)), k.bool('undefined at some pixel')
    empty = k.bool('no halos')

    def kappa(x, y, kw):
        v = b * (1.1 + np.hypot(np.asarray(x) - x0 + 0.1 * kw[0]['s'], np.asarray(y) - y0)) ** -a
        if hole:
            v = np.where((np.arange(len(v)) % 7) == 3, np.nan, v)
        return v
    plane = k.obj(lensing_quantities=lambda add_mass_sheet_correction=True: (
        [] if empty else ['TNFW'], None, [{'s': 1.0}], None) if add_mass_sheet_correction is False else None)
    asked = []
    k.override(cs.realization_at_z, lambda *q, **kw: (asked.append((q, kw)), (plane, [3, 7]))[1])
    k.override(cs.LensModel, lambda names, **kw: k.obj(kappa=kappa))
    parent = k.obj(lens_cosmo=k.obj(sigma_crit_arcsecond_interp=sc))
    c = k.new(cs.CorrelatedStructure, _realization=parent)
    k.begin()
    pdf, mass, idx = c._kappa_at_lens_plane(z, x0, y0, r, pix)
    q, kw = asked[0]
    k.check('the halos in the aperture', q[0] is parent and tuple(q[1:]) == (z, x0, y0, r) and kw == {'mass_sheet_correction': False})
    if empty:
        k.check('nothing', len(pdf) == 0 and len(idx) == 0)
        return
    k.check('their indexes', list(idx) == [3, 7])
    n = max(20, int(2 * r / pix))
    k.check('pixels', pdf.shape == (n, n))
    g = np.linspace(-r, r, n)
    X, Y = np.meshgrid(g, g)
    want = kappa((X + x0).ravel(), (Y + y0).ravel(), [{'s': 1.0}]).reshape(n, n)
    inside = np.sqrt(X ** 2 + Y ** 2) <= r
    want = np.where(inside & ~np.isnan(want), want, 0.0)
    k.check('projected density inside, nothing outside', bool(np.allclose(pdf, want, rtol=1e-9, atol=0)))
    k.eq('mean density times area', mass, sc(z) * want.sum() / inside.sum() * k.pi * r ** 2, rtol=1e-9)


@contract('positions follow the projected density', ['Correlated2D.draw', 'Correlated2D.__init__'], sym=False, seeds=60)
def correlated(k):
    from pyHalo.Rendering.SpatialDistributions.correlated import Correlated2D
    kpc = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    s = k.int('s', 2, 6)
    n = k.int('n', 1, 6)
    dens = np.array([[k.real('d%d%d' % (i, j), Real(0, 3, pool=(0.0, 1.0))) for j in range(s)] for i in range(s)])
    z, sx, sy, r = k.real('z', Real(0.05, 2)), k.real('sx', Real(-2, 2)), k.real('sy', Real(-2, 2)), k.real('r', Real(0.05, 1))
    smooth = k.choice('smoothing', [None, 0.0, 0.5, 2.5])
    shifted = k.bool('shifted')
    geo = k.obj(kpc_per_arcsec=kpc)
    c = Correlated2D(geo) if smooth is None else Correlated2D(geo, smooth)
    before = dens.copy()
    k.begin()
    o = k.call(c.draw, n, r, dens, z, *((sx, sy) if shifted else ()))
    if dens.sum() == 0:
        k.check('nothing to follow: refused', o.raised(Exception))
        return
    x, y = o.value
    if not shifted:
        sx = sy = 0.0
    d = [q for q in k.draws if q.dist == 'choice']
    if len(d) != 1:
        return
    _, values, replace, p = d[0].params
    k.check('with replacement', replace is True)
    k.check('in proportion to the density', bool(np.allclose(p, (before / before.sum()).reshape(-1), rtol=1e-9, atol=1e-12)))
    jit = [q.std for q in k.draws if q.dist == 'Z']
    row, col = np.asarray(d[0].std) // s, np.asarray(d[0].std) % s
    w = (1.0 if smooth is None else smooth) * r / s
    g = np.linspace(-r, r, s)
    k.check('x of the pixel', bool(np.allclose(x, kpc(z) * (g[col] + w * jit[0] + sx), rtol=1e-9, atol=1e-12)))
    k.check('y of the pixel', bool(np.allclose(y, kpc(z) * (g[row] + w * jit[1] + sy), rtol=1e-9, atol=1e-12)))
    k.check('the density is left alone', bool((dens == before).all()))
