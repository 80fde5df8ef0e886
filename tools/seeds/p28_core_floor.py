SEED = dict(property='P28', edits=[('pyHalo/Halos/HaloModels/NFW_core_trunc.py',
 "            if rt_kpc < self._args['x_core_halo'] * rs_kpc0:\n", "            if rt_kpc < self._args['x_core_halo']:\n")],
 needs='a truncation radius between the core fraction and the core radius',
 breaks='the core of a collapsed halo extends beyond its truncation radius')
DEMO = '''
import numpy as np
import pyHalo.Halos.HaloModels.NFW_core_trunc as m


class LC(object):
    z_source = 2.0

    class cosmo(object):
        kpc_proper_per_asec = staticmethod(lambda z: 5.0)
    get_sigma_crit_lensing = staticmethod(lambda a, b: 2e15)
    NFW_params_physical = staticmethod(lambda mass, c, z, pseudo_nfw: (1e6, 20.0, 200.0))


class P(object):
    density_lens = staticmethod(lambda r, *a: 1 / (1 + np.asarray(r)) ** 3)


class C(object):
    nfw_concentration = staticmethod(lambda m, z: 10.0)
h = m.TNFWCHaloParametric(1e8, 0., 0., None, 0.5, False, LC, {'rt_kpc': 0.4, 'x_core_halo': 0.05, 'mass_conservation': 1e8}, None, C, 0.1)
h.tnfwc_lenstronomy = P
a = h.profile_args
assert abs(a[1] - 0.4 * 0.99) < 1e-9 and a[2] < 0.4, a
'''
