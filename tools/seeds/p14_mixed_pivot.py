SEED = dict(property='P14', edits=[('pyHalo/Rendering/MassFunctions/density_peaks.py',
 "        normalization = kwargs_model['LOS_normalization'] * norm_dv * volume_element_comoving / (m_pivot ** plaw_index)\n",
 "        normalization = kwargs_model['LOS_normalization'] * norm_dv * volume_element_comoving / (m_pivot ** coeffs[0])\n")],
 needs='mixed dark matter with a non-zero slope offset',
 breaks='the slope offset changes the amplitude at the pivot mass')
DEMO = '''
import numpy as np
import pyHalo.Rendering.MassFunctions.density_peaks as D
D.evaluate_mass_function = lambda m, h, z, model: 3e-9 * (m / 1e8) ** -1.9


class Geo(object):
    class cosmo(object):
        colossus, h = None, 0.7
    volume_element_comoving = staticmethod(lambda z, dz: 5.0)
for delta in (0.0, 0.1):
    kw = dict(m_pivot=1e8, log_mlow=6.0, log_mhigh=10.0, delta_power_law_index=delta, LOS_normalization=2.0,
              draw_poisson=True, log_mc=-50.0, a_wdm=1.0, b_wdm=1.0, c_wdm=-1.0, mixed_DM_frac=0.4)
    for cls in (D.ShethTormen, D.ShethTormenTurnover, D.ShethTormenMixedWDM):
        got = cls.from_redshift(0.5, 0.02, Geo, kw).evaluate(1e8)
        assert np.isclose(got, 3e-8, rtol=1e-9), (cls, delta, got)
'''
