import numpy as np
from lenstronomy._prof import Profile


class TNFW(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 3.0

    def derivatives(self, x, y, Rs, alpha_Rs, r_trunc, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs, alpha_Rs, r_trunc)
    derivatives._pv_ret = 2

    def hessian(self, x, y, Rs, alpha_Rs, r_trunc, center_x=0, center_y=0):
        return self._hessian(x - center_x, y - center_y, Rs, alpha_Rs, r_trunc)
    hessian._pv_ret = 4

    def density(self, r, Rs, rho0, r_trunc):
        return (r_trunc ** 2 * (r_trunc ** 2 + r ** 2) ** -1) * rho0 / (r / Rs * (1 + r / Rs) ** 2)

    def mass_3d(self, r, Rs, rho0, r_trunc):
        x = r * Rs ** -1
        f = (r_trunc ** 2 * (-2 * x * (1 + r_trunc ** 2) + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
             - 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs) + 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs * (1 + x))
             + 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs * r_trunc)
             - (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs ** 2 * (x ** 2 + r_trunc ** 2)))) / (2. * (1 + x) * (1 + r_trunc ** 2) ** 2)
        return 4 * np.pi * Rs ** 3 * rho0 * f

    def alpha2rho0(self, alpha_Rs, Rs):
        return alpha_Rs / (4. * Rs ** 2 * (1. + np.log(1. / 2.)))

    def rho02alpha(self, rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1. / 2.)))
