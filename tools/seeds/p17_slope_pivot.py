SEED = dict(property='P17', edits=[('pyHalo/Rendering/subhalos.py',
 "            m_pivot_factor = kwargs_model['m_pivot'] ** -(kwargs_model['power_law_index'] + 1)\n",
 "            m_pivot_factor = kwargs_model['m_pivot'] ** -(self._kwargs_mass_function['power_law_index'] + 1)\n")],
 needs='subhalo amplitude given as dndA together with a non-zero slope offset',
 breaks='the number density at the pivot mass changes with the slope offset')
DEMO = '''
import numpy as np
from pyHalo.Rendering.subhalos import Subhalos


class Geo(object):
    cone_opening_angle = 6.0


class LC(object):
    z_lens = 0.5

    class cosmo(object):
        kpc_proper_per_asec = staticmethod(lambda z: 6.0)


class MF(object):
    def __init__(self, **kw):
        self.kw = kw
for delta in (0.0, -0.05):
    s = Subhalos.__new__(Subhalos)
    s._geometry, s._lens_cosmo, s._mass_function_model = Geo, LC, MF
    s._kwargs_mass_function = dict(log_mlow=6.0, log_mhigh=10.0, power_law_index=-1.9, delta_power_law_index=delta,
                                   m_pivot=1e8, dndA=0.01, host_m200=1e13)
    kw = s._get_mass_function_model().kw
    at_pivot = kw['normalization'] * 1e8 ** (kw['power_law_index'] + 1)
    assert np.isclose(at_pivot, np.pi * 18.0 ** 2 * 0.01, rtol=1e-9), (delta, at_pivot)
'''
