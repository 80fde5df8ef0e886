SEED = dict(property='P23', edits=[('pyHalo/Halos/tidal_truncation.py',
"""        time_since_infall = halo.time_since_infall
        log10c = np.log10(infall_concentration)
        log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, self._chost)
""", """        log10c = np.log10(infall_concentration)
        if not hasattr(self, '_mass_loss'):
            self._mass_loss = {}
        if infall_concentration not in self._mass_loss:
            time_since_infall = halo.time_since_infall
            self._mass_loss[infall_concentration] = self._mass_loss_interp(log10c, time_since_infall, self._chost)
        log10mbound_over_minfall = self._mass_loss[infall_concentration]
""")],
 needs='two subhalos of the same concentration but different infall times',
 breaks='the second subhalo loses the mass the first one lost, whatever its own time since infall')
DEMO = '''
import numpy as np
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Halos.lens_cosmo import LensCosmo
from pyHalo.Halos.tidal_truncation import TruncationGalacticusKeeley24
class H(object):
    def __init__(self, t):
        self.mass, self.c, self.time_since_infall, self.z_eval, self.z, self.z_infall = 1e8, 10.0, t, 0.5, 0.5, 2.0
def mean(t, before=None):
    f = TruncationGalacticusKeeley24(LensCosmo(0.5, 2.0, Cosmology()), 6.0)
    np.random.seed(1)
    if before is not None:
        f.calculate_mbound(H(before))
    return np.mean([np.log10(f.calculate_mbound(H(t))) for _ in range(300)])
assert abs(mean(6.0) - mean(6.0, 0.3)) < 0.15, (mean(6.0), mean(6.0, 0.3))
'''
