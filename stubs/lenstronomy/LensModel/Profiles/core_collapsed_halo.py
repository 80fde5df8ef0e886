import numpy as np
from lenstronomy._prof import Profile


class CoreCollapsedHalo(Profile):
    """signatures of the lensing library; values are stand-ins unless stated"""
    _id = 10.0

    def derivatives(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc, gamma_inner, gamma_outer, center_x=0, center_y=0):
        return self._derivatives(x - center_x, y - center_y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc, gamma_inner, gamma_outer)
    derivatives._pv_ret = 2
