SEED = dict(property='P24', edits=[('pyHalo/Halos/galacticus_truncation/interp_mass_loss.py',
 "        chost = max(6.0, chost)\n", "        chost = max(4.0, chost)\n")],
 needs='the Milky Way model with a host concentration below 6',
 breaks='mass loss is extrapolated below the calibrated host concentrations')
DEMO = '''
import numpy as np
from pyHalo.Halos.galacticus_truncation.interp_mass_loss import InterpGalacticusMW
f = InterpGalacticusMW(30)
for c in (3.0, 4.5, 5.9, 6.0, 9.0):
    seen = []
    g, h = f._a_interp, f._b_interp
    f._a_interp = lambda p: seen.append(p) or g(p)
    f(1.2, 3.0, c)
    f._a_interp = g
    assert seen[0] == (3.0, 1.2, max(c, 6.0)), (c, seen)
'''
