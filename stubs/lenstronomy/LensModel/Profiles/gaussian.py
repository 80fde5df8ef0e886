import numpy as np
from lenstronomy._prof import Profile


class Gaussian(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 6.0

    def derivatives(self, x, y, amp, sigma, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, amp, sigma)
    derivatives._pv_ret = 2
