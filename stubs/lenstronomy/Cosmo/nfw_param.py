import numpy as np


class NFWParam(object):
    """NFW parameters; units with h (M_sun/h, Mpc/h)"""
    rhoc = 2.77536627e11

    def __init__(self, cosmo=None):
        self.cosmo = cosmo

    def rhoc_z(self, z):
        return self.rhoc * self.cosmo.efunc(z) ** 2

    def M200(self, rs, rho0, c):
        return 4 * np.pi * rho0 * rs ** 3 * (np.log(1.0 + c) - c / (1.0 + c))

    def r200_M(self, M, z):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * 200)) ** (1.0 / 3.0)

    def M_r200(self, r200, z):
        return self.rhoc_z(z) * r200 ** 3 * 4 * np.pi / 3.0 * 200

    def rho0_c(self, c, z):
        return 200.0 / 3 * self.rhoc_z(z) * c ** 3 / (np.log(1 + c) - c / (1 + c))
