SEED = dict(property='P10', edits=[('pyHalo/Cosmology/cosmology.py',
 "            key = (float(z), float(zform))\n", "            key = float(z)\n")],
 needs='the age asked for the same redshift with two different formation redshifts on one cosmology object',
 breaks='the second query returns the age since the first formation redshift')
DEMO = '''
from pyHalo.Cosmology.cosmology import Cosmology
c = Cosmology()
a, b = c.halo_age(0.5, 10), c.halo_age(0.5, 3)
d = Cosmology()
assert abs(b - d.halo_age(0.5, 3)) < 1e-12, (a, b, d.halo_age(0.5, 3))
assert c.halo_age(4.0, 3) == 0.0 and a > b
'''
