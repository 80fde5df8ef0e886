SEED = dict(property='P23', edits=[('pyHalo/Halos/tidal_truncation.py',
 "        return halo.z_infall - self._lens_cosmo.z_lens\n", "        return max(halo.z_infall, halo.z) - halo.z\n")],
 needs='a subhalo that is not at the main deflector redshift, or one accreted after it',
 breaks='the elapsed redshift is counted from the halo instead of the main deflector')
DEMO = '''
from pyHalo.Halos.tidal_truncation import TruncationGalacticusZinfall as T
t = T.__new__(T)


class O(object):
    z_lens = 0.5
t._lens_cosmo = O
h = O()
h.z_infall, h.z = 2.0, 0.52
assert abs(t.halo_deltaz_infall(h) - 1.5) < 1e-12
'''
