SEED = dict(property='P31', edits=[('pyHalo/Halos/lens_cosmo.py',
"""        factor = 4 * self.cosmo.G * self.cosmo.c ** -2
        dds = self.cosmo.D_A(z, self.z_source)
        dd = self.cosmo.D_A_z(z)
        ds = self.D_s
        factor *= dds / dd / ds
        return factor ** 0.5 / self.cosmo.arcsec
""", """        if not hasattr(self, '_point_mass_distances'):
            # distances are expensive, the constants are not
            dds = self.cosmo.D_A(z, self.z_source)
            dd = self.cosmo.D_A_z(z)
            ds = self.D_s
            self._point_mass_distances = dds / dd / ds
        factor = 4 * self.cosmo.G * self.cosmo.c ** -2 * self._point_mass_distances
        return factor ** 0.5 / self.cosmo.arcsec
""")],
 needs='two point masses at different redshifts in the same lens system',
 breaks='every later point mass gets an Einstein radius with the distances of the first one: its deflection no longer corresponds to its mass')
DEMO = '''
import numpy as np
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
from pyHalo.Halos.HaloModels.blackhole import BlackHole
def theta(lc, z):
    h = BlackHole(1e6, 0.1, 0.2, None, z, False, lc, {}, None, None, 0.5)
    return h.lenstronomy_params[0][0]['theta_E']
both = LensCosmo(0.5, 2.0, Cosmology())
a = [theta(both, z) for z in (0.3, 0.5, 1.2)]
b = [theta(LensCosmo(0.5, 2.0, Cosmology()), z) for z in (0.3, 0.5, 1.2)]
assert np.allclose(a, b, rtol=1e-8), (a, b)
'''
