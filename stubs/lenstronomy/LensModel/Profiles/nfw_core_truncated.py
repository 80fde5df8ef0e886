import numpy as np
from lenstronomy._prof import Profile


class TNFWC(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 1.0

    def derivatives(self, x, y, Rs, alpha_Rs, r_core, r_trunc, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs, alpha_Rs, r_core, r_trunc)
    derivatives._pv_ret = 2

    def hessian(self, x, y, Rs, alpha_Rs, r_core, r_trunc, center_x=0, center_y=0):
        return self._hessian(x - center_x, y - center_y, Rs, alpha_Rs, r_core, r_trunc)
    hessian._pv_ret = 4

    def density_lens(self, R, Rs, alpha_Rs, r_core, r_trunc):
        return self.density(R, Rs, self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc), r_core, r_trunc)

    def alpha2rho0(self, alpha_Rs, Rs, r_core, r_trunc):
        return alpha_Rs * self._density(4, Rs, Rs, 1.0, r_core, r_trunc)

    def density(self, R, Rs, rho0, r_core, r_trunc):
        return rho0 * self._density(2, R, Rs, 1.0, r_core, r_trunc)

    def mass_3d_lens(self, R, Rs, alpha_Rs, r_core, r_trunc):
        return self._mass(3, R, Rs, alpha_Rs, r_core, r_trunc)
