SEED = dict(property='P30', edits=[('pyHalo/realization_extensions.py',
 """        delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])

        for (zi, delta_zi) in zip(plane_redshifts, delta_z):
            kwargs_model_subres""", """        delta_z.append(delta_z[-1] if delta_z else self._realization.lens_cosmo.z_source - plane_redshifts[-1])

        for (zi, delta_zi) in zip(plane_redshifts, delta_z):
            kwargs_model_subres""")],
 needs='a realization whose last halo plane is not followed by a slice of the usual thickness',
 breaks='unresolved halos of the last plane fill the wrong volume')
DEMO = '''
import numpy as np
import pyHalo.realization_extensions as E
from pyHalo.single_realization import Realization


class Geo(object):
    cone_opening_angle = 6.0
    rendering_scale = staticmethod(lambda z: 1.0)
    kpc_per_arcsec = staticmethod(lambda z: 6.0)


class LC(object):
    z_lens, z_source = 0.5, 2.0

    class cosmo(object):
        astropy = None
        kpc_proper_per_asec = staticmethod(lambda z: 6.0)


class H(object):
    mdef, r3d, is_subhalo, mass, nfw_params, lens_cosmo, x, y = 'TNFW', None, False, 1e7, (1, 2, 3), LC, 0.0, 0.0

    def __init__(self, z):
        self.z, self.unique_tag = z, np.random.rand()
seen = []


class ST(object):
    @classmethod
    def from_redshift(cls, z, dz, geo, kw):
        seen.append((z, dz))
        s = cls()
        s.draw = lambda: np.array([])
        return s
E.ShethTormen = ST
for zs in ((0.4, 0.6, 0.7), (0.4,)):
    del seen[:]
    r = Realization.from_halos([H(z) for z in zs], LC(), {}, True, None, 0.0, 0.0, Geo)
    E.RealizationExtensions(r).add_black_holes(-3.0, 0.0)
    want = [(z, e - z) for z, e in zip(zs, zs[1:] + (2.0,))]
    assert np.allclose(seen, want), (seen, want)
'''
