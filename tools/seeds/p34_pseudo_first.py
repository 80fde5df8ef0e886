SEED = dict(property='P34', edits=[('pyHalo/Halos/batch_halo_util.py',
 """    rhos, rs, r200 = nfw_params_physical_vectorized(lens_cosmo, m, c, z_eval, pseudo)
    for i, halo in enumerate(halos):
        halo._nfw_params = [rhos[i], rs[i], r200[i]]
""", """    rhos, rs, r200 = nfw_params_physical_vectorized(lens_cosmo, m, c, z_eval, bool(pseudo.all()))
    for i, halo in enumerate(halos):
        halo._nfw_params = [rhos[i], rs[i], r200[i]]
""")],
 needs='one list that mixes halos with cored and cuspy NFW normalizations',
 breaks='cored halos in a mixed list get the cuspy density normalization')
DEMO = '''
import numpy as np
import pyHalo.Halos.batch_halo_util as B


class H(object):
    z_eval = 0.5
    lens_cosmo = None

    def __init__(self, m, c, pseudo):
        self.mass, self.c, self._c, self._pseudo_nfw = m, c, c, pseudo


class LC(object):
    class cosmo(object):
        h = 0.7

        class astropy(object):
            efunc = staticmethod(lambda z: np.sqrt(0.3 * (1 + z) ** 3 + 0.7))

    class _nfw_param(object):
        rhoc = 2.775e11
H.lens_cosmo = LC
one, mixed = [H(1e8, 10.0, True), H(1e9, 9.0, False)], [H(1e8, 10.0, True), H(1e9, 9.0, False)]
for h in one:
    B.precompute_nfw_params([h])
B.precompute_nfw_params(mixed)
for a, b in zip(one, mixed):
    assert np.allclose(a._nfw_params, b._nfw_params, rtol=1e-10), (a._nfw_params, b._nfw_params)
'''
