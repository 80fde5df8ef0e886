import numpy as np
from lenstronomy._prof import Profile


class PseudoDoublePowerlaw(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 7.0

    def derivatives(self, x, y, Rs, alpha_Rs, gamma_inner, gamma_outer, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs, alpha_Rs, gamma_inner, gamma_outer)
    derivatives._pv_ret = 2

    def density_lens(self, R, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return self._density(1, R, Rs, alpha_Rs, gamma_inner, gamma_outer)

    def mass_3d_lens(self, R, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return alpha_Rs * R ** (3 - gamma_inner) / (Rs + R) ** (2 - gamma_inner) * (1.0 + 0.01 * self._v(1, gamma_outer))

    def mass_3d(self, R, Rs, rho0, gamma_inner, gamma_outer):
        return self._mass(3, R, Rs, rho0, gamma_inner, gamma_outer)

    def rho02alpha(self, rho0, Rs, gamma_inner, gamma_outer):
        return self._conv(4, rho0, Rs, gamma_inner, gamma_outer)

    def alpha2rho0(self, alpha_Rs, Rs, gamma_inner, gamma_outer):
        return self._conv(5, alpha_Rs, Rs, gamma_inner, gamma_outer)
