SEED = dict(property='P13', edits=[('pyHalo/Rendering/MassFunctions/mass_function_base.py',
 """    def draw(self):
        \"\"\"
        Samples from the mass function
        :return:
        \"\"\"
        m = self._mass_function_unbroken.draw()
        if len(m) == 0:
            return m
        factor = self._turnover(m, **self._kwargs_mass_function)
        u = np.random.rand(int(len(m)))
        inds = np.where(u < factor)
        return m[inds]

    @staticmethod
    def _turnover(m, log_mc, a_mfunc_break, b_mfunc_break, c_mfunc_break):
""", """    def draw(self):
        \"\"\"
        Samples from the mass function
        :return:
        \"\"\"
        m = self._mass_function_unbroken.draw()
        if len(m) == 0:
            return m
        factor = self._turnover(m, **self._kwargs_mass_function)
        factor = factor / self._turnover(10 ** self._logmhigh, **self._kwargs_mass_function)
        u = np.random.rand(int(len(m)))
        inds = np.where(u < factor)
        return m[inds]

    @staticmethod
    def _turnover(m, log_mc, a_mfunc_break, b_mfunc_break, c_mfunc_break):
""")],
 needs='a suppression that is still significant at the highest mass (warm dark matter with a half-mode mass near the top of the range)',
 breaks='halos are kept relative to the suppression at the highest mass, so too many survive')
DEMO = '''
import numpy as np
from pyHalo.Rendering.MassFunctions.mass_function_base import WDMPowerLaw
kw = dict(log_mlow=6.0, log_mhigh=8.0, power_law_index=-1.9, draw_poisson=False, normalization=1e9,
          log_mc=8.5, a_wdm=1.0, b_wdm=1.0, c_wdm=-1.0)
f = WDMPowerLaw(**kw)
np.random.seed(3)
m = f._mass_function_unbroken.draw()
u = np.random.rand(len(m))
want = m[u < f.turnover(m)]
np.random.seed(3)
got = f.draw()
assert len(m) > 50 and len(got) == len(want) and np.allclose(got, want), (len(m), len(got), len(want))
'''
