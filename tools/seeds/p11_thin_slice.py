SEED = dict(property='P11', edits=[('pyHalo/utilities.py',
 '        front_z = np.arange(zmin, zlens, lens_plane_spacing)\n',
 '        front_z = np.arange(zmin, zlens, lens_plane_spacing)\n        if len(front_z) > 1 and zlens - front_z[-1] < 0.25 * lens_plane_spacing:\n            front_z = front_z[:-1]\n')],
 needs='a lens less than a quarter of a step behind the last foreground plane',
 breaks='a foreground plane is missing, the planes are not spaced by the requested step')
DEMO = '''
import numpy as np
from pyHalo.utilities import generate_lens_plane_redshifts
for zl in (0.5, 0.51, 0.45, 0.4125):
    z, dz = generate_lens_plane_redshifts(zl, 2.0, 0.1)
    front = np.arange(0.01, zl, 0.1)
    assert len(z) == len(front) + len(np.arange(zl, 2.0, 0.1)), (zl, z)
    assert np.max(dz) < 0.101, (zl, dz)
'''
