import numpy as np
from lenstronomy._prof import Profile


class CNFW(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 4.0

    def derivatives(self, x, y, Rs, alpha_Rs, r_core, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs, alpha_Rs, r_core)
    derivatives._pv_ret = 2

    def hessian(self, x, y, Rs, alpha_Rs, r_core, center_x=0, center_y=0):
        return self._hessian(x - center_x, y - center_y, Rs, alpha_Rs, r_core)
    hessian._pv_ret = 4

    def density_lens(self, R, Rs, alpha_Rs, r_core):
        return self._density(2, R, Rs, alpha_Rs, r_core)

    def mass_3d_lens(self, R, Rs, alpha_Rs, r_core):
        return self._mass(3, R, Rs, alpha_Rs, r_core)

    def density_2d(self, x, y, Rs, rho0, r_core, center_x=0, center_y=0):
        return rho0 / (1.0 + np.hypot(x - center_x, y - center_y) / Rs) ** 2 * (1.0 + 0.01 * self._v(5, r_core))

    def mass_2d(self, R, Rs, rho0, r_core):
        return self._mass(5, R, Rs, rho0, r_core)

    def mass_3d(self, R, Rs, rho0, r_core):
        return self._mass(6, R, Rs, rho0, r_core)
