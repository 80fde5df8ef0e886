SEED = dict(property='P05', edits=[('pyHalo/single_realization.py',
 "        self.r3d = np.array(r3d);\n", "        self.r3d = np.array([0. if r is None else r for r in r3d]);\n")],
 needs='a realization with field halos (no 3D radius) next to subhalos',
 breaks='the array of 3D radii shows a radius for halos that have none')
DEMO = '''
import numpy as np
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 4.0

    class cosmo(object):
        astropy = None


class H(object):
    mdef, x, y, z, fixed_position, is_subhalo, mass = 'TNFW', 10., 10., 0.5, False, True, 1e7

    def __init__(self, r):
        self.r3d, self.unique_tag = r, np.random.rand()
f = lambda d: 0.0
r = Realization.from_halos([H(12.0), H(None)], LC(), {}, True, None, f, f, None)
assert r.r3d[0] == 12.0 and r.r3d[1] is None, r.r3d
'''
