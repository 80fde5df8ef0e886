SEED = dict(property='P25', edits=[('pyHalo/Halos/lens_cosmo.py',
 """        c = scale_concentration * mc_relation.nfw_concentration(m, z)
        return self.NFW_params_physical(m, c, z, pseudo_nfw)
""", """        c = scale_concentration * mc_relation.nfw_concentration(m, z)
        return self.NFW_params_physical(m, c, z)
""")],
 needs='the cored (pseudo-NFW) variant requested from mass and redshift alone',
 breaks='the cored variant gets the cuspy normalization, so r200 no longer contains its mass')
DEMO = '''
import numpy as np
from pyHalo.Halos.lens_cosmo import LensCosmo


class P(object):
    rhoc = 2.775e11
    r200_M = staticmethod(lambda m, z: (3 * m / (4 * np.pi * 200 * 2.775e11)) ** (1.0 / 3))
    rho0_c = staticmethod(lambda c, z: 200.0 / 3 * 2.775e11 * c ** 3 / (np.log(1 + c) - c / (1 + c)))
    rho0_c_pseudoNFW = staticmethod(lambda c, z: 2 * c ** 3 * 2.775e11 * 200 / (3 * np.log(1 + c ** 2)))


class MC(object):
    nfw_concentration = staticmethod(lambda m, z: 12.0)
l = LensCosmo.__new__(LensCosmo)
l.h, l._nfw_param, l._concentration_mass_relation = 0.7, P, MC
for pseudo in (False, True):
    rho, rs, r200 = l.NFW_params_physical_fromMZ(1e9, 0.5, pseudo_nfw=pseudo)
    x = r200 / rs
    m = 4 * np.pi * rho * rs ** 3 * (0.5 * np.log(1 + x ** 2) if pseudo else np.log(1 + x) - x / (1 + x))
    assert abs(m / 1e9 - 1) < 1e-9, (pseudo, m)
'''
