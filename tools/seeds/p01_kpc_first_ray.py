SEED = dict(property='P01', edits=[('pyHalo/single_realization.py',
 "                within_aperture[check_distances] = np.any(dr_kpc <= dr_cut, axis=1)\n",
 "                within_aperture[check_distances] = (dr_kpc <= dr_cut)[:, 0]\n")],
 needs='filtering in kpc units around more than one ray, with a halo near a ray that is not the first',
 breaks='halos inside the aperture of the second and later rays are removed')
DEMO = '''
import numpy as np
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 2.0

    class cosmo(object):
        astropy = None
        D_C_z = staticmethod(lambda z: 2000.0 * z)


class H(object):
    mdef, r3d, is_subhalo, fixed_position, z = 'TNFW', None, False, False, 0.5

    def __init__(self, x, m):
        self.x, self.y, self.mass, self.unique_tag = x, 0.0, m, np.random.rand()
f = lambda d: 0.0 * d
hs = [H(1.0, 1e6), H(-1.0, 1e6), H(3.0, 1e6), H(3.0, 1e9)]
r = Realization.from_halos(hs, LC(), {}, True, None, f, f, None)
rays = [lambda d: 1.0 + 0 * d, lambda d: -1.0 + 0 * d]
out = r.filter(1.0, 8.0, rays, [f, f], aperture_units='KPC')
assert out.halos == [hs[0], hs[1], hs[3]], [(h.x, h.mass) for h in out.halos]
out = r.filter(0.3, 8.0, rays, [f, f], aperture_units='ANGLES')
assert out.halos == [hs[0], hs[1], hs[3]]
'''
