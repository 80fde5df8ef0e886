SEED = dict(property='P12', edits=[('pyHalo/Rendering/MassFunctions/util.py',
 "    if factor == 0:\n", "    if abs(factor) < 1e-2:\n")],
 needs='a slope close to, but not at, the value where the moment is logarithmic (e.g. -1.995 for the mass)',
 breaks='number and mass of halos are off by several per cent near the logarithmic slopes')
DEMO = '''
from scipy.integrate import quad
from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
for index in (-1.9, -1.993, -2.0):
    m = CDMPowerLaw(6.0, 10.0, index, True, 1e7)
    want = quad(lambda t: 1e7 * (10 ** t) ** (2 + index) * 2.302585092994046, 6.0, 10.0)[0]
    assert abs(m.first_moment / want - 1) < 1e-6, (index, m.first_moment, want)
'''
