SEED = dict(property='P22', edits=[('pyHalo/Halos/concentration.py',
 "            if log10m[0] <= x <= log10m[-1] and u[0] <= y <= u[-1]:\n",
 "            if log10m[0] <= x <= log10m[-1] and u[0] <= y:\n")],
 needs='a single halo queried beyond the redshift range of a table that was already built (history of two queries)',
 breaks='the table is extrapolated instead of being rebuilt, so the answer depends on earlier queries')
DEMO = '''
import numpy as np
from pyHalo.Halos.concentration import _ConcentrationCDM


class C(_ConcentrationCDM):
    def __init__(self):
        self._table = None

    def _evaluate_concentration_colossus(self, m, z):
        return 10 ** (1.0 - 0.1 * np.log10(m / 1e8) - 0.3 * np.log10(1 + z) ** 3)
for first in (0.5, 14.0):
    c = C()
    c._evaluate_concentration_from_table(1e8, first)
    for z in (0.3, 2.0, 16.0, 30.0):
        got, want = c._evaluate_concentration_from_table(1e8, z), c._evaluate_concentration_colossus(1e8, z)
        assert abs(got / want - 1) < 2e-3, (first, z, got, want)
'''
