SEED = dict(property='P08', edits=[('pyHalo/single_realization.py',
 """            if halo.fixed_position:
                halos_out.append(halo)
                continue
            if halo.z < min_shift_redshift:
                continue
            to_shift.append(halo)
""", """            if halo.z < min_shift_redshift:
                continue
            if halo.fixed_position:
                halos_out.append(halo)
                continue
            to_shift.append(halo)
""")],
 needs='a halo with a fixed position below the minimum redshift given to the shift',
 breaks='halos with fixed positions below the minimum redshift are dropped from the shifted realization')
DEMO = '''
import numpy as np
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 2.0

    class cosmo(object):
        astropy = None
        D_C_z = staticmethod(lambda z: 3000.0 * z)


class H(object):
    mdef, r3d, is_subhalo, mass = 'TNFW', None, False, 1e7

    def __init__(self, z, fixed):
        self.x, self.y, self.z, self.fixed_position, self.unique_tag = 0.1, 0.2, z, fixed, np.random.rand()
f = lambda d: 0.0 * d
a, b, c = H(0.3, True), H(0.3, False), H(0.8, False)
r = Realization.from_halos([a, b, c], LC(), {}, True, None, f, f, None)
s = r.shift_background_to_source(lambda d: d * 1e-4, lambda d: d * 2e-4, min_shift_redshift=0.5)
assert s.halos == [a, c], [h.z for h in s.halos]
assert (a.x, a.y) == (0.1, 0.2) and abs(c.x - 0.34) < 1e-9 and abs(c.y - 0.68) < 1e-9
'''
