SEED = dict(property='P18', edits=[('pyHalo/Rendering/line_of_sight.py',
 """            log_mass_sheet_correction_min, log_mass_sheet_correction_max = self._redshift_dependent_mass_range(
                z, log_mlow, log_mhigh)
            mass_function_model = self._get_mass_function_model(z, delta_z,
                                                                log_mlow=log_mass_sheet_correction_min,
                                                                log_mhigh=log_mass_sheet_correction_max)
""", """            log_mlow, log_mhigh = self._redshift_dependent_mass_range(z, log_mlow, log_mhigh)
            mass_function_model = self._get_mass_function_model(z, delta_z, log_mlow=log_mlow, log_mhigh=log_mhigh)
""")],
 needs='mass limits of the sheets given as functions of redshift and at least two planes',
 breaks='all planes behind the first use the mass limits of the first one')
DEMO = '''
import numpy as np
from pyHalo.Rendering.line_of_sight import LineOfSight


class Geo(object):
    cone_opening_angle, _zsource = 6.0, 2.0
    angle_to_physical_area = staticmethod(lambda r, z: r ** 2)


class LC(object):
    sigma_crit_mass = staticmethod(lambda z, a: 10.0)


class MF(object):
    @classmethod
    def from_redshift(cls, z, dz, geometry, kw):
        s = cls()
        s.first_moment = kw['log_mhigh'] - kw['log_mlow'] + 100 * kw['log_mlow']
        return s
c = LineOfSight.__new__(LineOfSight)
c._kwargs_mass_function = {'log_mlow': 6.0, 'log_mhigh': 10.0}
c._mass_function_model, c._geometry, c._lens_cosmo = MF, Geo, LC
c._lens_plane_redshifts, c._delta_z_list = np.array([0.2, 0.4]), np.array([0.2, 0.2])
kw, names, zs = c.convergence_sheet_correction(1.0, lambda z: 7.0 + z, lambda z: 10.0 - z)
want = [-(100 * (7 + z) + 3 - 2 * z) / 10.0 for z in (0.2, 0.4)]
assert np.allclose([k['kappa'] for k in kw], want), (kw, want)
kw, names, zs = c.convergence_sheet_correction(1.0, 7.0, 10.0)
assert np.allclose([k['kappa'] for k in kw], [-70.3, -70.3]) and names == ['CONVERGENCE'] * 2 and zs == [0.2, 0.4]
'''
