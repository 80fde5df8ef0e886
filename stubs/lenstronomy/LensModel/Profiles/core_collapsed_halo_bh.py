import numpy as np
from lenstronomy._prof import Profile


class CoreCollapsedHaloBH(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 9.0

    def derivatives(self, x, y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc)
    derivatives._pv_ret = 2
