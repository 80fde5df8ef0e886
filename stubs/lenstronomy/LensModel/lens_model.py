import numpy as np


class LensModel(object):
    """stand-in: records its arguments; hessian/ray-shooting are smooth functions"""

    def __init__(self, lens_model_list=None, z_lens=None, z_source=None, lens_redshift_list=None, cosmo=None,
                 multi_plane=False, **kwargs):
        self.lens_model_list = lens_model_list
        self.redshift_list = list(lens_redshift_list) if lens_redshift_list is not None else None
        self.z_source = z_source
        self.cosmo = cosmo
        self.multi_plane = multi_plane

    def kappa(self, x, y, kwargs, **k):
        r = np.hypot(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
        s = 0.0
        for j, kw in enumerate(kwargs):
            s = s + (j + 1.0) / (1.0 + r)
        return s + 0.0 * r

    def hessian(self, x, y, kwargs, **k):
        s = self.kappa(x, y, kwargs)
        return s, 0.1 * s, 0.1 * s, 1.1 * s
