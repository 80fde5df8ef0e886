SEED = dict(property='P02', edits=[('pyHalo/single_realization.py',
 "keep = ~is_sub | (np.absolute(self.masses) > 10 ** log10_mass_minimum)\n",
 "keep = ~is_sub | (np.log10(self.masses) > np.float32(log10_mass_minimum))\n")],
 needs='subhalos with a mass within single precision of the threshold, or of negative mass',
 breaks='subhalos just above the documented threshold are removed')
DEMO = '''
import numpy as np
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 4.0

    class cosmo(object):
        astropy = None


class H(object):
    mdef, x, y, r3d, z, fixed_position, is_subhalo = 'TNFW', 10., 10., None, 0.5, False, True

    def __init__(self, m):
        self.mass, self.unique_tag = m, np.random.rand()
f = lambda d: 0.0
ms = [10 ** 7.3 * (1 + 2e-9), 10 ** 7.3 * (1 - 2e-9), 1e6, 1e9, -1e9]
r = Realization.from_halos([H(m) for m in ms], LC(), {}, True, None, f, f, None)
out = r.filter_subhalos(0.5, 7.3, [0.0], [0.0])
assert [h.mass for h in out.halos] == [ms[0], ms[3], ms[4]], [h.mass for h in out.halos]
'''
