SEED = dict(property='P34', edits=[('pyHalo/Halos/batch_halo_util.py',
 "        key = (id(h._concentration_class), float(h.z_eval))\n",
 "        key = (type(h._concentration_class), float(h.z_eval))\n")],
 needs='a list of halos at the same redshift whose concentration models are of the same class with different settings',
 breaks='all halos of a plane get the concentration of the first halo\'s model')
DEMO = '''
from pyHalo.Halos.batch_halo_util import precompute_concentrations


class Conc(object):
    name = 'POWERLAW_TEST'

    def __init__(self, c0):
        self.c0 = c0

    def nfw_concentration(self, m, z):
        return self.c0 * (m / 1e8) ** -0.1


class H(object):
    z_eval = 0.5

    def __init__(self, m, conc):
        self.mass, self._concentration_class = m, conc
a, b = Conc(10.0), Conc(20.0)
hs = [H(1e8, a), H(1e7, b), H(1e9, a)]
precompute_concentrations(hs)
assert all(abs(h._c - h._concentration_class.nfw_concentration(h.mass, 0.5)) < 1e-9 for h in hs), [h._c for h in hs]
'''
