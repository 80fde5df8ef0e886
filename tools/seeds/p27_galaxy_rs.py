SEED = dict(property='P27', edits=[('pyHalo/Halos/HaloModels/sis.py',
 """            if self._nfw_halo.is_subhalo:
                rs = self._nfw_halo.profile_args[1]
            else:
                rs = self._nfw_halo.nfw_params[1]
            rs_arcsec = rs / kpc_per_arcsec
            alpha_Rs = self._alphaRs()
""", """            rs = self._nfw_halo.nfw_params[1]
            rs_arcsec = rs / kpc_per_arcsec
            alpha_Rs = self._alphaRs()
""")],
 needs='a subhalo galaxy whose profile arguments carry something else than the scale radius in the NFW parameters',
 breaks='the galaxy is rendered with another scale radius than the one its mass was matched with')
DEMO = '''
import numpy as np
import pyHalo.Halos.HaloModels.sis as S


class Prof(object):
    mass_3d_lens = staticmethod(lambda r, rs, a, g1, g2: a * (r + 3 * rs))
S.PseudoDoublePowerlaw = Prof


class LC(object):
    z_source = 2.0

    class cosmo(object):
        kpc_proper_per_asec = staticmethod(lambda z: 5.0)
    get_sigma_crit_lensing = staticmethod(lambda a, b: 2e15)


class H(object):
    lens_cosmo, mass, x, y, r3d, z, unique_tag, fixed_position, _args = LC, 1e10, 0.1, 0.2, None, 0.5, 0.3, False, {}
    c, z_infall = 11.0, 1.5
    nfw_params, profile_args = (1e7, 2.0, 30.0), (11.0, 7.0, 2.0)
    mass_3d = staticmethod(lambda r: 1e10)
for sub, rs in ((True, 7.0), (False, 2.0)):
    h = H()
    h.is_subhalo = sub
    g = S.MassiveGalaxy(h)
    g._nfw_params = h.nfw_params
    kw = g.lenstronomy_params[0][0]
    mass = kw['alpha_Rs'] * (30.0 / 5.0 + 3 * kw['Rs']) * 2e15 * 0.005 ** 2
    assert abs(mass / 1e10 - 1) < 1e-6, (sub, kw, mass)
'''
