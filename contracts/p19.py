"""spatial distributions"""
import numpy as np
from engine.api import contract
from engine.kit import Real, Int
from .common import posgen

PROPERTY = dict(
    title='Halo positions: inside the rendering area, uniform or following the host profile',
    statement="""Field halos are uniform in area within half the opening angle times the rendering scale of their plane: angle and
    squared radius are independent uniform numbers, shifted by the requested centre and converted to physical kpc at that redshift.
    Subhalos have a uniform angle and a projected radius between a thousandth of and the full rendering radius, and 3D radii up to r200,
    each drawn from the cumulative cored-NFW mass of the host whose scale radius, r200 and core come from its mass and concentration.
    The requested number of positions is returned, none for zero halos.""",
    over=['inputs', 'random outcomes'],
    forall='every number of halos, redshift, opening angle, rendering scale, centre, host profile and random outcome',
    tests='the tests histogram a few draws and most need the lensing library',
    files=['pyHalo/Rendering/SpatialDistributions/uniform.py', 'pyHalo/Rendering/SpatialDistributions/nfw.py',
           'pyHalo/utilities.py'],
    mechanism=[('Uniform.draw, LensConeUniform.draw', 'pyHalo/Rendering/SpatialDistributions/uniform.py'),
               ('ProjectedNFW', 'pyHalo/Rendering/SpatialDistributions/nfw.py'),
               ('inverse_transform_sampling', 'pyHalo/utilities.py')],
)


@contract('uniform', ['Uniform.draw', 'Uniform.__init__', 'LensConeUniform.__init__', 'LensConeUniform.draw'])
def uniform(k):
    from pyHalo.Rendering.SpatialDistributions.uniform import Uniform, LensConeUniform
    kpc = k.fn('kpc_per_arcsec', posgen(k, 0.5, 10))
    scale = k.fn('rendering_scale', Real(0, 1))
    g = k.obj(kpc_per_arcsec=kpc, rendering_scale=scale)
    th = k.real('theta', Real(0, 60, pool=(6.0,)))
    z = k.real('z', Real(0.01, 4))
    n = k.int('n', 0, 4)
    cx, cy = k.real('cx', Real(-3, 3, pool=(0.0,))), k.real('cy', Real(-3, 3, pool=(0.0,)))
    cone = k.choice('cone', [True, False])
    given = k.choice('centre', [True, False])
    again = k.choice('second plane', [False, True])
    z1 = k.real('z of the plane before', Real(0.01, 4))
    re = k.real('rescale', Real(0, 2, pool=(1.0,)))
    kw = {}
    if given:
        kw = {'center_x': cx, 'center_y': cy}
        if not cone:
            kw['rescale'] = re
    else:
        cx = cy = 0.0
        re = 1.0
    k.begin()
    d = k.run(LensConeUniform, th, g) if cone else k.run(Uniform, th, g)
    first = 0
    if again:
        # one plane has been populated already
        k.run(d.draw, 1, z1, **kw)
        first = 2
    x, y = k.run(d.draw, n, z, **kw)
    if k.Eq(n, 0):
        k.check('nothing', len(x) == 0 and len(y) == 0)
        return
    rmax = th / 2 * scale(z) if cone else th * re
    a, r2 = k.std(first, 'U'), k.std(first + 1, 'U')
    k.eq('one angle per halo', k.len(a), n)
    k.eq('one radius per halo', k.len(r2), n)
    pol = k.zip(a, r2)
    k.same('x', x, k.amap(lambda p: kpc(z) * (k.sqrt(p[1] * rmax ** 2) * k.cos(2 * k.pi * p[0]) + cx), pol))
    k.same('y', y, k.amap(lambda p: kpc(z) * (k.sqrt(p[1] * rmax ** 2) * k.sin(2 * k.pi * p[0]) + cy), pol))


def inside(k, label, r, lo, hi):
    k.check(label, k.forall(lambda v: k.And(v >= lo * (1 - 1e-9), v <= hi * (1 + 1e-9)), r))


@contract('inverse transform sampling', ['inverse_transform_sampling', 'inverse_transform_sampling_from_cdf'])
def its(k):
    from pyHalo.utilities import inverse_transform_sampling
    from scipy.interpolate import interp1d
    m = k.size('nodes', 2, 6)
    step, x0 = k.real('step', Real(0.1, 2)), k.real('x0', Real(0, 3))
    p = k.fn('density', posgen(k, 0.1, 3))
    b = k.real('b', Real(0, 1))
    x = k.amap(lambda i: x0 + step * i, k.run(range, m))
    n = k.int('n', 0, 4)
    k.begin()
    out = k.run(inverse_transform_sampling, x, lambda v, q: k.amap(lambda t: p(t, q), v), (b,), n)
    cdf = k.run(np.cumsum, k.amap(lambda t: p(t, b), x))
    top = k.run(np.max, cdf)
    norm = k.amap(lambda c: c / top, cdf)
    u = k.std(0, 'U')
    k.eq('one number per sample', k.len(u), n)
    lo, hi = k.at(norm, 0), k.at(norm, -1)
    k.same('samples are quantiles', out, k.amap(lambda t: k.run(k.run(interp1d, norm, x), lo + (hi - lo) * t), u))
    inside(k, 'samples inside the domain', out, x0, x0 + step * (m - 1))


@contract('subhalo positions', ['ProjectedNFW.draw', 'ProjectedNFW.__init__'], seeds=24)
def nfw(k):
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    from scipy.interpolate import interp1d
    rmax, rs, rc, r200, kpc = [k.pos(q, *ab) for q, ab in (('rmax', (0.5, 60)), ('rs', (0.5, 30)), ('rcore', (0.05, 20)),
                                                           ('r200', (10, 300)), ('kpc_per_arcsec', (1, 10)))]
    k.assume(r200 > rmax * 0.002)
    s2 = k.fn('density_2d', posgen(k, 0.1, 3), impl=lambda x, y, a, b, c: b / (1 + (np.asarray(x) / a) ** 2 + c * 0.1 + y))
    s3 = k.fn('density_3d', posgen(k, 0.1, 3), impl=lambda x, a, b, c: b / (1 + (np.asarray(x) / a) ** 3 + c * 0.1))
    prof = k.obj(density_2d=(lambda x, *a: k.amap(lambda v: s2(v, *a), x)) if k.sym else s2,
                 density=(lambda x, *a: k.amap(lambda v: s3(v, *a), x)) if k.sym else s3)
    n = k.int('n', 0, 3)
    k.begin()
    d = k.run(ProjectedNFW, rmax, rs, rc, r200, kpc)
    d._cnfw_profile = prof
    x, y, r3 = k.run(d.draw, n, *([0.5] if k.bool('z given') else []))
    if k.Eq(n, 0):
        k.check('nothing', len(x) == 0 and len(y) == 0 and len(r3) == 0)
        return
    N = 20000

    def radii(u, lo, hi, rho, power):
        node = lambda i: lo + (hi - lo) * (i / (N - 1))
        if k.sym:
            idx = k.run(range, N - 1)
            xs = k.amap(node, idx)
            w = k.amap(lambda i: rho(node(i)) * (node(i + 1) ** power - node(i) ** power), idx)
        else:
            g = np.linspace(lo, hi, N)
            xs, w = g[:-1], rho(g[:-1]) * (g[1:] ** power - g[:-1] ** power)
        cdf = k.run(np.cumsum, w)
        top = k.run(np.max, cdf)
        norm = k.amap(lambda c: c / top, cdf) if k.sym else cdf / top
        a, b = k.at(norm, 0), k.at(norm, -1)
        f = k.run(interp1d, norm, xs)
        return k.amap(lambda t: kpc * f(a + (b - a) * t), u)
    u2, th, u3 = k.std(0, 'U'), k.std(1, 'U'), k.std(2, 'U')
    for u in (u2, th, u3):
        k.eq('one number per halo', k.len(u), n)
    r2 = radii(u2, 1e-3 * rmax, rmax, lambda v: s2(v, 0.0, rs, 1.0, rc), 2)
    pol = k.zip(r2, th)
    k.same('x', x, k.amap(lambda p: p[0] * k.cos(2 * k.pi * p[1]), pol))
    k.same('y', y, k.amap(lambda p: p[0] * k.sin(2 * k.pi * p[1]), pol))
    k.same('3D radii', r3, radii(u3, 1e-3 * rmax, r200, lambda v: s3(v, rs, 1.0, rc), 3))
    inside(k, 'projected radii inside the rendering area', r2, 1e-3 * rmax * kpc, rmax * kpc)
    inside(k, '3D radii inside the virial radius', r3, 1e-3 * rmax * kpc, r200 * kpc) if not k.sym else None


@contract('profile of the host', ['ProjectedNFW.from_Mhost'])
def host(k):
    import pyHalo.Rendering.SpatialDistributions.nfw as sd
    m, z, rmax, f = k.real('m', Real(1e12, 1e15, log=True)), k.real('z', Real(0.05, 2)), k.real('rmax', Real(0.5, 60)), k.real('core', Real(0, 3))
    rs, r200 = k.fn('rs_mpc', posgen(k, 0.01, 0.1)), k.fn('r200_mpc', posgen(k, 0.1, 1))
    kpc = k.fn('kpc_per_arcsec', posgen(k, 1, 10))
    conc = k.fn('concentration', posgen(k, 3, 20))
    lc = k.obj(nfwParam_physical=lambda m_, c_, z_: (1.0, rs(m_, c_, z_), r200(m_, c_, z_)), cosmo=k.obj(kpc_proper_per_asec=kpc))
    made = []
    k.override(sd.ConcentrationDiemerJoyce, lambda *a, **kw: (made.append((a, kw)), k.obj(nfw_concentration=conc))[1])
    given = k.bool('concentration given')
    c = k.real('c', Real(2, 20))
    k.begin()
    d = k.run(sd.ProjectedNFW.from_Mhost, m, z, rmax, f, lc, **({'c_host': c} if given else {}))
    if not given:
        c = conc(m, z)
    k.eq('rendering radius', d._rmax2d, rmax)
    k.eq('scale radius', d._rs_arcsec, rs(m, c, z) * 1000 / kpc(z))
    k.eq('virial radius', d._rmax3d, r200(m, c, z) * 1000 / kpc(z))
    k.eq('core radius', d._rcore_arcsec, f * rs(m, c, z) * 1000 / kpc(z))
    k.eq('kpc per arcsec', d._arcsec_to_kpc, kpc(z))


@contract('field distributions cannot follow a host', ['Uniform.from_Mhost', 'LensConeUniform.from_Mhost'])
def refused(k):
    from pyHalo.Rendering.SpatialDistributions.uniform import Uniform, LensConeUniform
    for c in (Uniform, LensConeUniform):
        k.begin()
        k.check('refused', k.call(c.from_Mhost, 1e13, 0.5, 3.0, 0.5, None).raised(Exception))
