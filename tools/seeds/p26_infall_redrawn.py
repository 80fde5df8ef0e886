SEED = dict(property='P26', edits=[('pyHalo/Halos/halo_base.py',
 "        if not hasattr(self, '_z_infall'):\n            self._z_infall = self.lens_cosmo.z_accreted_from_zlens(self.mass)\n",
 "        if getattr(self, '_z_infall', -1.) < self.z:\n            self._z_infall = self.lens_cosmo.z_accreted_from_zlens(self.mass)\n")],
 needs='an infall redshift below that of the halo (set, or drawn from a wide model)',
 breaks='the infall redshift is drawn again on every read, a redshift that was set is ignored')
DEMO = '''
from pyHalo.Halos.halo_base import Halo


class LC(object):
    n = 0

    def z_accreted_from_zlens(self, m):
        LC.n += 1
        return 0.4 + 0.01 * LC.n


class H(Halo):
    profile_args = lenstronomy_ID = lenstronomy_params = None
h = H(1e7, 0., 0., 1., 'TNFW', 0.5, True, LC(), {}, 1.0)
a = [h.z_infall, h.z_infall, h.z_eval]
assert LC.n == 1, (LC.n, a)
'''
