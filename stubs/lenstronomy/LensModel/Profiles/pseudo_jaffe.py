import numpy as np
from lenstronomy._prof import Profile


class PseudoJaffe(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 8.0

    def derivatives(self, x, y, sigma0, Ra, Rs, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, sigma0, Ra, Rs)
    derivatives._pv_ret = 2

    def rho2sigma(self, rho0, Ra, Rs):
        return np.pi * rho0 * Ra * Rs / (Rs + Ra)
