import numpy as np
from lenstronomy._prof import Profile


class NFW(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 5.0

    def derivatives(self, x, y, Rs, alpha_Rs, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs, alpha_Rs)
    derivatives._pv_ret = 2

    def hessian(self, x, y, Rs, alpha_Rs, center_x=0, center_y=0):
        return self._hessian(x - center_x, y - center_y, Rs, alpha_Rs)
    hessian._pv_ret = 4

    def density(self, R, Rs, rho0):
        return rho0 / (R / Rs * (1 + R / Rs) ** 2)

    def mass_3d(self, r, Rs, rho0):
        return 4 * np.pi * Rs ** 3 * rho0 * (np.log((Rs + r) / Rs) - r / (Rs + r))

    def alpha2rho0(self, alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    def rho02alpha(self, rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))
