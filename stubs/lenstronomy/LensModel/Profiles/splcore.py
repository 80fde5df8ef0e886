import numpy as np
from lenstronomy._prof import Profile


class SPLCORE(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 2.0

    def derivatives(self, x, y, sigma0, r_core, gamma, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, sigma0, r_core, gamma)
    derivatives._pv_ret = 2

    def density_lens(self, r, sigma0, r_core, gamma):
        return self._density(1, r, r_core, sigma0, gamma)

    def density_2d(self, x, y, rho0, r_core, gamma):
        return self._density(2, np.hypot(x, y), r_core, rho0, gamma)

    def mass_3d(self, r, rho0, r_core, gamma):
        return rho0 * r_core * r ** 2 / (1 + r) * (1.0 + 0.01 * self._v(1, gamma))
