SEED = dict(property='P28', edits=[('pyHalo/Halos/HaloModels/NFW_core_trunc.py',
 """            r_trunc_angle = rt_kpc / kpc_per_arcsec
            x, y = np.round(self.x, 4), np.round(self.y, 4)
            kwargs = [{'alpha_Rs': self._rescale_norm * alpha_Rs,
""", """            r_trunc_angle = max(rt_kpc, rs_kpc) / kpc_per_arcsec
            x, y = np.round(self.x, 4), np.round(self.y, 4)
            kwargs = [{'alpha_Rs': self._rescale_norm * alpha_Rs,
""")],
 needs='a cored halo truncated inside its scale radius',
 breaks='the lens model is truncated at the scale radius instead of the truncation radius of the halo')
DEMO = '''
from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloParametric as T


class LC(object):
    class cosmo(object):
        kpc_proper_per_asec = staticmethod(lambda z: 5.0)
h = T.__new__(T)
h._lens_cosmo, h.z, h.x, h.y, h._rescale_norm = LC, 0.5, 0.1, 0.2, 1.0
h._profile_args = (0.01, 2.0, 1.5, 0.5, 20.0)
kw = h.lenstronomy_params[0][0]
assert abs(kw['r_trunc'] - 0.1) < 1e-12 and abs(kw['Rs'] - 0.4) < 1e-12, kw
'''
