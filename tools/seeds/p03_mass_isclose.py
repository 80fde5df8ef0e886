SEED = dict(property='P03', edits=[('pyHalo/single_realization.py',
 "            inds = np.where(self.redshifts == z)\n", "            inds = np.where(np.isclose(self.redshifts, z, rtol=0.02))\n")],
 needs='two lens planes closer together than two percent in redshift (fine plane spacing or high redshift)',
 breaks='the mass at a redshift includes the halos of neighbouring lens planes')
DEMO = '''
import numpy as np
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 4.0

    class cosmo(object):
        astropy = None


class H(object):
    mdef, x, y, r3d, is_subhalo, fixed_position = 'TNFW', 0., 0., None, False, False

    def __init__(self, m, z):
        self.mass, self.z, self.unique_tag = m, z, np.random.rand()
f = lambda d: 0.0
r = Realization.from_halos([H(1e7, 2.0), H(2e7, 2.02), H(4e7, 3.0)], LC(), {}, True, None, f, f, None)
assert r.mass_at_z_exact(2.0) == 1e7, r.mass_at_z_exact(2.0)
assert r.mass_at_z_exact(2.02) == 2e7
assert r.mass_at_z_exact(3.0) == 4e7
'''
