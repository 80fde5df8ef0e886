"""shared preconditions: symbolic realizations, assumed interfaces of collaborating objects"""
import numpy as np
from engine.kit import Real, Int, Bool, Str, Meth

ZH = lambda: Real(0.0, 5.0, lo_open=True, pool=(0.2, 0.5, 0.5, 0.8), tie='z')
MASS = lambda: Real(0, None, lo_open=True, pool=(1e6, 1e7, 1e8), tie='m')


def posgen(k, lo=1e-3, hi=1e3):
    return Real(0, None, lo_open=True) if k.sym else Real(lo, hi, log=True)


def cosmo(k, **extra):
    """assumed interface of Cosmology: comoving distances are positive at positive redshift, nothing else"""
    Dc = k.fn('D_C_z', posgen(k), impl=lambda z: 3000.0 * float(z) / (1 + 0.3 * float(z)))
    return k.obj(astropy='ASTROPY', D_C_z=Dc, D_C_transverse=k.fn('D_C_transverse', posgen(k), impl=lambda z: 2900.0 * float(z) / (1 + 0.3 * float(z))), **extra)


def lens_cosmo(k, cosmo_=None, **extra):
    zl = k.real('z_lens', Real(0.05, 2.0, pool=(0.5,), tie='z'))
    zs = zl + k.real('dz_source', Real(0.01, 4.0, pool=(1.5,)))
    return k.obj(z_lens=zl, z_source=zs, cosmo=cosmo_ or cosmo(k), **extra)


def halos(k, name='h', size='n', **extra):
    n = k.size(size, 0)
    attrs = dict(mass=Real(0, None, lo_open=True, pool=(1e6, 1e7, 1e8), tie='m') if k.sym else
                 Real(1e5, 1e10, pool=(1e6, 1e7, 1e8), tie='m'),
                 x=Real(pool=(0.0, 0.1, -0.1, 0.5)), y=Real(pool=(0.0, 0.0, 0.1, 0.5)), r3d=Real(0, None), z=ZH(),
                 mdef=Str('NFW', 'TNFW', 'PT_MASS'), unique_tag=Real(0, 1, tie='tag'), is_subhalo=Bool(),
                 bound_mass=Real(0, None, pool=(1e6, 1e7), tie='m'), fixed_position=Bool())
    attrs.update(extra)
    return k.family(name, n, **attrs)


def center(k, tag=''):
    return k.fn('center_x' + tag, Real(-3, 3)), k.fn('center_y' + tag, Real(-3, 3))


def realization(k, hs=None, lc=None, tag='', rendering_classes=None, geometry='GEOMETRY', cls=None, sheet=None, shifted=None):
    """a realization built by the code's own constructor"""
    from pyHalo.single_realization import Realization
    if hs is None:
        hs = halos(k)
    if lc is None:
        lc = lens_cosmo(k)
    cx, cy = center(k, tag)
    rc = ['RC%s' % tag] if rendering_classes is None else rendering_classes
    sheet = k.bool('sheet' + tag) if sheet is None else sheet
    r = k.run(Realization.from_halos, hs, lc, {'kw' + tag: 1}, sheet, rc, cx, cy, geometry)
    if shifted is None:
        shifted = k.bool('shifted' + tag)
    r._has_been_shifted = shifted
    return r


def carried_over(k, label, new, old, rc=True, center=True, aligned=True):
    """settings a derived realization keeps from its parent"""
    k.check(label + ': lens cosmology kept', new.lens_cosmo is old.lens_cosmo)
    k.check(label + ': halo model kept', new.kwargs_halo_model is old.kwargs_halo_model)
    k.check(label + ': mass sheet setting kept', new.apply_mass_sheet_correction is old.apply_mass_sheet_correction)
    if rc:
        k.same(label + ': rendering classes kept', new.rendering_classes, old.rendering_classes)
    if center:
        k.check(label + ': rendering centre kept', k.get(new, 'rendering_center')[0] is k.get(old, 'rendering_center')[0] and
                k.get(new, 'rendering_center')[1] is k.get(old, 'rendering_center')[1])
    k.check(label + ': geometry kept', new.geometry is old.geometry)
    if aligned:
        k.eq(label + ': remembers whether it was aligned already', new._has_been_shifted, old._has_been_shifted)


def lens(k, zl=0.5, zs=2.0, **more):
    from pyHalo.Halos.lens_cosmo import LensCosmo, NFWParampyHalo
    h = k.real('h', Real(0.5, 0.9, pool=(0.7, 0.68)))
    om = k.real('Om0', Real(0.1, 0.5, pool=(0.3, 0.2)))
    E = k.fn('E', posgen(k, 1, 8))
    rho = k.fn('rho_crit0', posgen(k, 1e11, 2e11))
    ast = k.obj(efunc=E, Om0=om, critical_density=rho)
    da = k.fn('D_A_z', posgen(k, 50, 2000))
    da2 = k.fn('D_A', posgen(k, 50, 2000))
    age = k.fn('halo_age', Real(0, 14))
    kpa = k.fn('kpc_per_asec', posgen(k, 0.5, 9))
    from pyHalo.Cosmology.cosmology import Cosmology as Co
    co = k.obj(astropy=ast, h=h, D_A_z=da, D_A=da2, kpc_proper_per_asec=kpa, c=Co.c, G=Co.G, arcsec=Co.arcsec,
               halo_age=lambda z, zform=10: age(z, zform), colossus='COLOSSUS', _colossus_cosmo=k.obj(rho_m=k.fn('rho_m', posgen(k, 1, 100))))
    lc = k.new(LensCosmo, cosmo=co, h=h, _arcsec=2 * np.pi / 360 / 3600, z_lens=zl, z_source=zs, D_s=da(zs), _nfw_param=k.run(NFWParampyHalo, ast),
               **more)
    return lc, dict(h=h, om=om, E=E, rho=rho, da=da, da2=da2, age=age, kpa=kpa, co=co)


def rhoc(k, s, z):
    """critical density in physical M_sun/Mpc^3, from 2.77536627e11 h^2 M_sun/Mpc^3 today"""
    return 2.77536627e11 * s['E'](z) ** 2 * s['h'] ** 2


def sigma_crit(s, z1, z2):
    co = s['co']
    return co.c ** 2 / (4 * np.pi * co.G) * s['da'](z2) / (s['da2'](z1, z2) * s['da'](z1))
