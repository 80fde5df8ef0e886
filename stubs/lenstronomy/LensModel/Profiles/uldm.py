import numpy as np
from lenstronomy._prof import Profile


class Uldm(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 11.0

    def density_lens(self, r, kappa_0, theta_c, slope=8):
        return self._density(0, r, theta_c, kappa_0, slope)

    def mass_3d_lens(self, r, kappa_0, theta_c, slope=8):
        return self._mass(1, r, kappa_0, theta_c, slope)
