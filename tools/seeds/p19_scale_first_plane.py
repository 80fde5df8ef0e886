SEED = dict(property='P19', edits=[('pyHalo/Rendering/SpatialDistributions/uniform.py',
"""        kpc_per_asec = self._geo.kpc_per_arcsec(z_plane)
""", """        if not hasattr(self, '_kpc_per_asec'):
            self._kpc_per_asec = self._geo.kpc_per_arcsec(z_plane)
        kpc_per_asec = self._kpc_per_asec
""")],
 needs='the same distribution drawn from at two lens planes',
 breaks='positions at every plane after the first are converted to kpc with the scale of the first plane: halos leave the rendering area or crowd in its centre')
DEMO = '''
import numpy as np
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Cosmology.geometry import Geometry
from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform
g = Geometry(Cosmology(), 0.5, 2.0, 6.0, 'DOUBLE_CONE')
u = LensConeUniform(6.0, g)
np.random.seed(3)
u.draw(10, 0.1)
x, y = u.draw(4000, 0.4)
r = np.hypot(x, y) / g.kpc_per_arcsec(0.4)
assert 2.9 < r.max() <= 3.0 + 1e-9, r.max()
'''
