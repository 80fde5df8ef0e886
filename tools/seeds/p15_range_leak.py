SEED = dict(property='P15', edits=[('pyHalo/Rendering/line_of_sight.py',
 "        kwargs_model = deepcopy(self._kwargs_mass_function)\n",
 "        kwargs_model = self._kwargs_mass_function\n")],
 needs='a mass range given as a function of redshift (or a mass sheet computed between two renderings)',
 breaks='the mass range of the first plane overwrites the requested one, so later planes use it')
DEMO = '''
import numpy as np
import pyHalo.Rendering.line_of_sight as L


class MF(object):
    seen = []

    @classmethod
    def from_redshift(cls, z, dz, geometry, kw):
        cls.seen.append((z, kw['log_mlow'], kw['log_mhigh']))
        s = cls()
        s.draw = lambda: np.array([1e7])
        return s
c = L.LineOfSightNoSheet.__new__(L.LineOfSightNoSheet)
c._kwargs_mass_function = {'log_mlow': lambda z: 6.0 + z, 'log_mhigh': lambda z: 9.0 - z, 'draw_poisson': True}
c._mass_function_model, c._geometry = MF, None
c._get_mass_function_model(0.2, 0.2)
c._get_mass_function_model(0.4, 0.2)
assert np.allclose(MF.seen[0], (0.2, 6.2, 8.8)), MF.seen
assert np.allclose(MF.seen[1], (0.4, 6.4, 8.6)), MF.seen
assert callable(c._kwargs_mass_function['log_mlow'])
'''
