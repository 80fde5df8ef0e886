"""rendering geometry"""
from engine.api import contract
from engine.kit import Real
from .common import posgen

PROPERTY = dict(
    title='Rendering geometry: size, area and volume follow the chosen volume type',
    statement="""The angular size of the rendering area is constant with redshift for a cone, scales as the lens distance over the
    distance for a cylinder, and for a double cone is constant up to the lens and closes behind it as one minus the padded
    ratio of lens-to-plane over plane distance; unknown volume types are refused. Physical and comoving radii and areas of an
    angle, and the comoving volume of a redshift slice (exact integral for thick slices, thin-slice product otherwise,
    default radius half the opening angle), are derived from that size and the cosmology's distances.""",
    over=['inputs', 'configurations'],
    forall='every volume type, opening angle, padding, lens and source redshift, plane redshift, slice thickness and cosmology',
    tests='the geometry tests cannot run here and sample a few redshifts of one cosmology',
    files=['pyHalo/Cosmology/geometry.py'],
    mechanism=[('Geometry', 'pyHalo/Cosmology/geometry.py'), ('DoubleCone.rendering_scale', 'pyHalo/Cosmology/geometry.py'),
               ('Geometry.volume_element_comoving', 'pyHalo/Cosmology/geometry.py')],
)

ARCSEC = 4.84813681109536e-06


def cosmology(k):
    a = k.obj(hubble_distance=k.obj(value=k.real('c_over_H0', Real(3000, 6000))),
              efunc=k.fn('E', posgen(k, 0.9, 10.), impl=lambda z: (0.3 * (1 + z) ** 3 + 0.7) ** 0.5))
    dc = lambda z: 3000.0 * z / (1 + 0.3 * z)
    sf = lambda z: 1 / (1 + z)
    return k.obj(arcsec=k.real('arcsec', Real(4e-6, 5e-6)), astropy=a, scale_factor=sf,
                 D_A=k.fn('D_A', posgen(k, 10, 2000), impl=lambda a, b: max(abs(dc(b) - dc(a)), 1e-3) / (1 + b)), D_A_z=k.fn('D_A_z', posgen(k, 10, 2000), impl=lambda z: dc(z) / (1 + z)),
                 D_C_transverse=k.fn('D_C_transverse', posgen(k, 10, 2000), impl=lambda z: dc(z)),
                 kpc_proper_per_asec=k.fn('kpc_per_asec', posgen(k, 0.1, 9)))


def geometry(k, kind=None):
    from pyHalo.Cosmology.geometry import Geometry
    c = cosmology(k)
    zl = k.real('z_lens', Real(0.1, 2))
    zs = zl + k.real('dz_source', Real(0.01, 3))
    th = k.real('theta', Real(0.1, 60))
    pad = k.real('pad', Real(0.1, 1))
    kind = kind or k.choice('type', ['DOUBLE_CONE', 'CYLINDER', 'CONE'])
    k.begin()
    g = k.run(Geometry, c, zl, zs, th, kind, pad)
    return g, c, zl, zs, th, pad, kind


def scale(k, c, zl, zs, pad, kind, z):
    if kind == 'CONE':
        return 1.0
    if kind == 'CYLINDER':
        return c.D_C_transverse(zl) / c.D_C_transverse(z)
    rp = c.D_A(0, zs) / c.D_A(zl, zs)
    return k.ite(z <= zl, 1.0, 1 - pad * rp * (c.D_A(zl, z) / c.D_A_z(z)))


ZP = lambda: Real(0.02, 5, pool=(0.5,))


@contract('rendering_scale', ['Geometry.__init__', 'Geometry.rendering_scale', 'DoubleCone.rendering_scale',
                              'Cylinder.rendering_scale', 'Cone.rendering_scale'])
def rendering_scale(k):
    g, c, zl, zs, th, pad, kind = geometry(k)
    at = k.choice('at', ['lens', 'any'])
    z = zl if at == 'lens' else k.real('z', ZP())
    k.eq('scale', k.run(k.get(g, 'rendering_scale'), z), scale(k, c, zl, zs, pad, kind, z))
    k.eq('opening angle', g.cone_opening_angle, th)
    k.eq('kpc per arcsec at the lens', g.kpc_per_arcsec_zlens, c.kpc_proper_per_asec(zl))
    k.eq('kpc per arcsec', k.run(k.get(g, 'kpc_per_arcsec'), z), c.kpc_proper_per_asec(z))
    k.eq('reduced to physical', g._reduced_to_phys, c.D_A(0, zs) / c.D_A(zl, zs))
    k.check('cosmology', g.cosmo is c)


@contract('total volume of the simple volumes', ['DoubleCone.__init__', 'Cylinder.__init__', 'Cone.__init__'])
def totals(k):
    g, c, zl, zs, th, pad, kind = geometry(k)
    R = 0.5 * th * c.arcsec * c.D_C_transverse(zl)
    if kind == 'DOUBLE_CONE':
        want = k.pi / 3 * R ** 2 * c.D_C_transverse(zs)
    else:
        want = k.pi * R ** 2 * c.D_C_transverse(zs)
    k.eq('volume', g._geometrytype._total_volume, want)


@contract('unknown volume types are refused', ['Geometry.__init__'])
def refused(k):
    from pyHalo.Cosmology.geometry import Geometry
    c = cosmology(k)
    name = k.choice('type', ['SPHERE', 'double_cone', '', None])
    k.begin()
    o = k.call(Geometry, c, 0.5, 1.5, 6.0, name)
    k.check('exception', o.raised(Exception))


@contract('radii and areas', ['Geometry.angle_to_physicalradius', 'Geometry.angle_to_comovingradius',
                              'Geometry.angle_to_comoving_area', 'Geometry.angle_to_physical_area'])
def areas(k):
    g, c, zl, zs, th, pad, kind = geometry(k)
    z = k.real('z', ZP())
    a = k.real('angle', Real(0, 60))
    s = scale(k, c, zl, zs, pad, kind, z)
    R = a * c.arcsec * s * c.D_A_z(z)
    k.eq('physical radius', k.run(k.get(g, 'angle_to_physicalradius'), a, z), R)
    k.eq('comoving radius', k.run(k.get(g, 'angle_to_comovingradius'), a, z), R * (1 + z))
    k.eq('comoving area', k.run(k.get(g, 'angle_to_comoving_area'), a, z), k.pi * (R * (1 + z)) ** 2)
    k.eq('physical area', k.run(k.get(g, 'angle_to_physical_area'), a, z), k.pi * R ** 2)


@contract('comoving volume of a slice', ['Geometry.volume_element_comoving', 'Geometry._volume_integrand_comoving'])
def slices(k):
    g, c, zl, zs, th, pad, kind = geometry(k)
    z = k.real('z', ZP())
    dz = k.real('dz', Real(1e-6, 0.1, pool=(1e-4, 0.02)))
    given = k.bool('radius_given')
    r = k.real('radius', Real(0, 30)) if given else None
    rad = r if given else 0.5 * th

    def integrand(x):
        R = rad * c.arcsec * scale(k, c, zl, zs, pad, kind, x) * c.D_A_z(x) * (1 + x)
        return k.pi * R ** 2 * (c.astropy.hubble_distance.value / c.astropy.efunc(x))
    got = k.run(k.get(g, 'volume_element_comoving'), z, dz, r)
    if dz > 1e-4:
        want = k.quad(integrand, z, z + dz)
    else:
        want = integrand(z) * dz
    k.eq('volume', got, want, rtol=1e-6)
