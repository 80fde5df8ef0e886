SEED = dict(property='P19', edits=[('pyHalo/Rendering/SpatialDistributions/uniform.py',
 "        rmax = self.rmax2d_arcsec * rescale\n", "        rmax = self.rmax2d_arcsec * min(rescale, 1.0)\n")],
 needs='a cylindrical volume and a plane in front of the deflector, where the rendering scale exceeds one',
 breaks='foreground halos are confined to the opening angle at the deflector')
DEMO = '''
import numpy as np
from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform


class Geo(object):
    rendering_scale = staticmethod(lambda z: 0.5 / z)
    kpc_per_arcsec = staticmethod(lambda z: 6.0)
np.random.seed(3)
for z, scale in ((0.25, 2.0), (0.5, 1.0), (1.0, 0.5)):
    x, y = LensConeUniform(6.0, Geo).draw(4000, z)
    r = np.hypot(x, y) / 6.0
    assert r.max() <= 3.0 * scale * (1 + 1e-9) and r.max() > 2.9 * scale, (z, r.max())
    assert abs(np.mean(r ** 2) / (9.0 * scale ** 2 / 2) - 1) < 0.05
'''
