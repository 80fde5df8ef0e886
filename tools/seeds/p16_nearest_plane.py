SEED = dict(property='P16', edits=[('pyHalo/Rendering/two_halo.py',
 "        idx = np.argmin(abs(np.array(lens_plane_redshifts) - z_eval))\n",
 "        idx = min(np.searchsorted(lens_plane_redshifts, z_eval), len(lens_plane_redshifts) - 1)\n")],
 needs='a deflector redshift that is not exactly one of the lens planes, slightly above the nearest one, and unequal spacings',
 breaks='the boost is averaged over the slice behind the deflector instead of the slice of the nearest lens plane')
DEMO = '''
import numpy as np
import pyHalo.Rendering.two_halo as T


class Conc(object):
    def __init__(self, *a, **k):
        pass

    def nfw_concentration(self, m, z):
        return 4.0


class LC(object):
    z_lens = 0.52

    class cosmo(object):
        astropy = None

    @staticmethod
    def NFW_params_physical(m, c, z):
        return 1.0, 2.0, 300.0
T.ConcentrationDiemerJoyce = Conc
seen = []
T.two_halo_enhancement_factor = lambda z, dz, *a, **k: seen.append(dz) or 3.0
kw = {'host_m200': 1e13, 'LOS_normalization': 1.0}
t = T.TwoHaloContribution(None, kw, None, None, LC, np.array([0.3, 0.5, 0.6]), np.array([0.2, 0.1, 0.4]))
assert np.allclose(seen, [0.1]), seen
LC.z_lens = 0.5
t = T.TwoHaloContribution(None, kw, None, None, LC, np.array([0.3, 0.5, 0.6]), np.array([0.2, 0.1, 0.4]))
assert np.allclose(seen, [0.1, 0.1]), seen
'''
