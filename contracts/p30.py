"""populations added to a realization: seeded black holes, globular clusters, wave interference"""
import numpy as np
from engine.api import contract
from engine.kit import Real, Int, Build
from .common import halos, carried_over, realization, lens_cosmo, posgen
from .specs.extensions import seeds, clusters_around, cluster_options, wave_interference, around_images

PROPERTY = dict(
    title='Added black holes, clusters and fluctuations follow the requested statistics',
    statement="""Seeding black holes returns a population with one in each halo with the requested probability, uniform in the disk inside the halo's scale radius, and
    one for every unresolved halo of each lens plane (field abundance in the given mass range times that probability, placed as that plane's field halos);
    masses are the given ratio of the halo's, capped, and only those above the minimum are rendered, at the halo's redshift. Globular clusters are added at
    the lens redshift around every centre, in a number that is Poisson with mean surface density times area over mean mass, log-normal in mass, uniform
    in the disk, with slope and core drawn uniformly and the core scaling as the cube root of mass. Wave interference adds Gaussian fluctuations with
    Poisson numbers for the area of the ring, ellipse or image apertures, placed there, with convergence and size drawn normally; beyond the given number
    they are fewer and weaker as the square root. All halos and settings of the realization are kept; unknown profiles and shapes are refused.""",
    over=['inputs', 'random outcomes'],
    forall='all realizations, options, centres, images and random draws, including empty populations',
    tests='the tests add one population with fixed options and check that it runs, or counts',
    files=['pyHalo/realization_extensions.py'],
    mechanism=[('RealizationExtensions.add_black_holes, add_globular_clusters, add_ULDM_fluctuations', 'pyHalo/realization_extensions.py')],
)


def joined(k):
    """joining realizations: all halos of the first, then the new ones of the other (here: all, their tags are fresh random numbers)"""
    from pyHalo.single_realization import Realization

    def join(a, b):
        r = k.run(Realization.from_halos, k.concat(a.halos, b.halos), a.lens_cosmo, a.kwargs_halo_model, a.apply_mass_sheet_correction, a.rendering_classes,
                  *k.get(a, 'rendering_center'), a.geometry)
        r._has_been_shifted = a._has_been_shifted
        return r
    k.override(Realization.join, join)


@contract('seeded black holes', ['RealizationExtensions.add_black_holes'], budget=150)
def black_holes(k):
    import pyHalo.realization_extensions as R
    from pyHalo.Halos.HaloModels.blackhole import BlackHole
    kpa = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    lc = lens_cosmo(k)
    lc.cosmo.kpc_proper_per_asec = kpa
    rs = k.fn('rs', posgen(k, 0.01, 30))
    hs = halos(k, const=dict(lens_cosmo=lc), nfw_params=Build(lambda h: (1.0, rs(h.mass), 2.0)))
    k.assume(k.len(hs) >= 1)
    cnt, fm = k.fn('count', Int(0, 3)), k.fn('mass', posgen(k, 1e5, 1e8))
    fx, fy = k.fn('fx', Real(-10, 10)), k.fn('fy', Real(-10, 10))
    geo = k.obj(cone_opening_angle=k.real('theta', Real(1, 10)))
    r = realization(k, hs, lc, geometry=geo)
    asked = []
    rng = lambda z: k.run(range, cnt(z))

    def from_redshift(z, dz, g, kw):
        k.check('geometry of the realization', g is geo)
        k.check('options', set(kw) == {'m_pivot', 'log_mlow', 'log_mhigh', 'LOS_normalization', 'delta_power_law_index', 'draw_poisson'})
        k.check('fixed options', kw['m_pivot'] == 10 ** 8 and kw['delta_power_law_index'] == 0.0 and kw['draw_poisson'] is True)
        k.eq('lowest mass', kw['log_mlow'], lo)
        k.eq('highest mass', kw['log_mhigh'], hi)
        k.eq('fraction with seeds', kw['LOS_normalization'], f * norm)
        return k.obj(draw=lambda: k.amap(lambda i: fm(z, dz, i), rng(z)))

    def cone(angle, g):
        k.check('cone of the realization', angle is geo.cone_opening_angle and g is geo)

        def draw(n, z):
            return k.amap(lambda i: fx(z, i) * kpa(z), k.run(range, n)), k.amap(lambda i: fy(z, i) * kpa(z), k.run(range, n))
        return k.obj(draw=draw)
    k.override(R.ShethTormen.from_redshift, from_redshift)
    k.override(R.LensConeUniform, cone)
    ratio, f = k.real('log ratio', Real(-4, 0)), k.real('fraction', Real(0, 1, pool=(0.0, 1.0, 0.5)))
    lo, hi, small, large, norm, o = 5.0, 6.0, 4.5, 6.7, 1.0, {}
    if k.choice('options', ['default', 'given']) == 'given':
        lo, hi, small, large, norm = k.real('lo', Real(4, 6)), k.real('hi', Real(6, 8)), k.real('small', Real(2, 5)), k.real('large', Real(5, 8)), k.real('norm', Real(0.5, 2))
        o = dict(log10_mlow_halos_subres=lo, log_mlow_halos=hi, log10_min_mbh=small, log10_mass_maximum=large, LOS_normalization=norm)
    ext = k.run(R.RealizationExtensions, r)
    k.begin()
    new = k.run(ext.add_black_holes, ratio, f, **o)
    zs = r.unique_redshifts
    n = k.len(zs)
    planes = k.zip(zs, k.concat(k.map(lambda i: k.at(zs, i + 1) - k.at(zs, i), k.run(range, n - 1)), [lc.z_source - k.at(zs, n - 1)]))
    hole = lambda m, x, y, z, tag: BlackHole(m, x, y, None, z, False, lc, {}, None, None, tag, fixed_position=False)
    want = k.replay(seeds, r.halos, planes, f, ratio, small, large, kpa,
                    lambda z, dz: k.map(lambda i: (fm(z, dz, i), fx(z, i), fy(z, i)), rng(z)), hole)
    k.same('black holes', new.halos, want)
    carried_over(k, 'black holes', new, r, aligned=False)


@contract('globular clusters', ['RealizationExtensions.add_globular_clusters'], budget=150)
def globular(k):
    import pyHalo.realization_extensions as R
    from pyHalo.Halos.HaloModels.blackhole import BlackHole
    from pyHalo.Halos.HaloModels.globular_cluster import GlobularCluster
    kpa = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    lc = lens_cosmo(k)
    lc.cosmo.kpc_proper_per_asec = kpa
    hs = halos(k)
    r = realization(k, hs, lc, geometry=k.obj(kpc_per_arcsec=kpa))
    mean, scatter, radius = k.real('log mean', Real(4, 6)), k.real('scatter', Real(0, 0.7, pool=(0.0,))), k.real('radius', Real(0.01, 0.3))
    prof = k.choice('profile', ['default', 'SPL_CORE', 'PTMASS', 'other'])
    slope, dslope, size, dsize, dens, o = 6.0, 0.3, 3.0, 1.0, 10 ** 5.6, {}
    if prof != 'default':
        slope, dslope, size, dsize, dens = (k.real('slope', Real(3.1, 8)), k.real('slope width', Real(0, 0.1)), k.real('size', Real(1, 5)), k.real('size width', Real(0, 1)),
                                            k.real('density', Real(1e4, 3e6, log=True)))
        o = dict(gc_density_profile=prof, gamma_mean=slope, gamma_sigma=dslope, gc_size_mean=size, gc_size_sigma=dsize, gc_surface_mass_density=dens)
    where = k.choice('centres', ['default', 'one', 'two', 'uneven'])
    centers = [(0, 0)]
    if where == 'one':
        centers = [(k.real('cx', Real(-2, 2)), k.real('cy', Real(-2, 2)))]
        o.update(center_x=centers[0][0], center_y=centers[0][1])
        if k.choice('given as', ['number', 'list']) == 'list':
            o.update(center_x=[centers[0][0]], center_y=[centers[0][1]])
    elif where != 'default':
        centers = [(k.real('cx%d' % i, Real(-2, 2)), k.real('cy%d' % i, Real(-2, 2))) for i in range(2)]
        o.update(center_x=[c[0] for c in centers], center_y=[c[1] for c in centers][:1 if where == 'uneven' else 2])
    joined(k)
    ext = k.run(R.RealizationExtensions, r)
    k.begin()
    out = k.call(ext.add_globular_clusters, mean, scatter, radius, **o)
    if where == 'uneven':
        k.check('uneven centres refused', out.raised(Exception))
        return
    n = dens * k.pi * (radius * kpa(lc.z_lens)) ** 2 / k.exp(k.log(10 ** mean) + k.log(10 ** scatter) ** 2 / 2)
    n = k.run(int, n)
    if prof == 'PTMASS':
        cluster = lambda tag, m, x, y: BlackHole(m, x, y, None, lc.z_lens, False, lc, (), None, None, tag, fixed_position=True)
    else:
        cluster = lambda tag, m, x, y: GlobularCluster(m, x, y, lc.z_lens, lc, k.run(cluster_options, m, slope, dslope, size, dsize), tag)
    if prof == 'other':
        if out.raised(Exception):
            return
        k.check('nothing added', k.len(out.value.halos) == k.len(r.halos))
        return
    new = out.value
    want = k.replay(clusters_around, centers, radius, n, mean, scatter, cluster)
    k.same('halos', new.halos, k.concat(r.halos, *want))
    carried_over(k, 'with clusters', new, r)


def waves(k, shape, images=0):
    import pyHalo.realization_extensions as R
    from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
    lc = lens_cosmo(k)
    kpa = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    D = k.fn('D_A', posgen(k, 50, 2000))
    arcsec = 2 * np.pi / 360 / 3600
    lc.cosmo.kpc_proper_per_asec, lc.cosmo.D_A_z, lc.cosmo.arcsec = kpa, D, arcsec
    r = realization(k, halos(k), lc)
    joined(k)
    u = lambda n, a, b, **kw: k.real(n, Real(a, b, **kw))
    if k.sym:
        size = u('size', 0.05, 1)
    else:
        size = u('size', 0.05, 1) * D(lc.z_lens) * arcsec * 1e3
    wave, width, amp = u('wavelength', 0.05, 2), u('width', 0.0, 0.5), u('amplitude', 0.01, 1)
    cut, scale = k.int('largest number', 1, 6), u('scale', 0.01, 1)
    args, o = {'rmin': 0.9, 'rmax': 1.1}, {}
    if shape == 'ring' and k.choice('ring', ['default', 'given']) == 'given':
        lo = u('rmin', 0, 2)
        args = {'rmin': lo, 'rmax': lo + u('ring width', 0.01, 1)}
        o = dict(args=args)
    elif shape == 'ellipse':
        a, b = u('amin', 0, 2), u('bmin', 0, 2)
        args = {'amin': a, 'amax': a + u('width a', 0.01, 1), 'bmin': b, 'bmax': b + u('width b', 0.01, 1), 'angle': u('angle', -4, 4)}
        o = dict(args=args)
    elif shape == 'aperture':
        args = {'x_images': [u('x%d' % i, -2, 2) for i in range(images)], 'y_images': [u('y%d' % i, -2, 2) for i in range(images)], 'aperture': u('aperture', 0.01, 1)}
        o = dict(args=args)
    before = {q: (list(v) if isinstance(v, list) else v) for q, v in args.items()}
    if shape != 'ring' or o:
        o.update(shape=shape)
    rescale = True
    if k.choice('options', ['default', 'given']) == 'given':
        rescale = k.choice('rescale', [True, False])
        o.update(n_fluc_scale=scale, rescale_fluc_amp=rescale)
    else:
        scale = 1.0
    ext = k.run(R.RealizationExtensions, r)
    k.begin()
    out = k.run(ext.add_ULDM_fluctuations, wave, amp, size, width, cut, **o)
    kpc = D(lc.z_lens) * arcsec * 1e3
    area = {'ring': lambda a: a['rmax'] ** 2 - a['rmin'] ** 2, 'ellipse': lambda a: a['amax'] * a['bmax'] - a['amin'] * a['bmin'],
            'aperture': lambda a: a['aperture'] ** 2}[shape](args) * k.pi * kpc ** 2
    halo = lambda m, s, x, y, tag: k.run(GaussianHalo, k.abs(m), x, y, None, lc.z_lens, True, lc, {'amp': m, 'sigma': s, 'center_x': x, 'center_y': y}, None, None, tag)
    tail = (args, area, kpa(lc.z_lens), size, width, amp, cut, scale, rescale, halo)
    want = k.replay(around_images, *tail) if shape == 'aperture' else k.replay(wave_interference, shape, *tail)
    k.same('options not modified', args, before)
    if want is None:
        k.check('nothing added', out is r)
        return
    k.same('halos', out.halos, k.concat(r.halos, want))
    carried_over(k, 'with fluctuations', out, r)


@contract('fluctuations in a ring', ['RealizationExtensions.add_ULDM_fluctuations', '_get_number_flucs', '_get_fluctuation_halos'], budget=120)
def ring(k):
    waves(k, 'ring')


@contract('fluctuations in an ellipse', ['RealizationExtensions.add_ULDM_fluctuations', '_get_number_flucs', '_get_fluctuation_halos'], budget=120)
def ellipse(k):
    waves(k, 'ellipse')


@contract('fluctuations around one image', ['RealizationExtensions.add_ULDM_fluctuations', '_get_number_flucs', '_get_fluctuation_halos'], budget=120)
def one_image(k):
    waves(k, 'aperture', 1)


@contract('fluctuations around several images', ['RealizationExtensions.add_ULDM_fluctuations', '_get_number_flucs', '_get_fluctuation_halos'], budget=150)
def images(k):
    waves(k, 'aperture', k.choice('images', [2, 3]))


@contract('unknown shapes of fluctuations', ['RealizationExtensions.add_ULDM_fluctuations'])
def shapes(k):
    import pyHalo.realization_extensions as R
    ext = k.run(R.RealizationExtensions, realization(k))
    k.begin()
    k.check('refused', k.call(ext.add_ULDM_fluctuations, 1.0, 0.1, 1.0, 0.1, 5, shape='square').raised(Exception))
