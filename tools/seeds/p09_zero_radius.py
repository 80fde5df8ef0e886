SEED = dict(property='P09', edits=[('pyHalo/Cosmology/geometry.py',
 "        if radius is None:\n", "        if not radius:\n")],
 needs='a volume element asked for a radius of zero (the inner edge of an annulus)',
 breaks='a slice of zero radius gets the volume of the full rendering area')
DEMO = '''
from pyHalo.Cosmology.cosmology import Cosmology
from pyHalo.Cosmology.geometry import Geometry
g = Geometry(Cosmology(), 0.5, 1.5, 6.0, 'DOUBLE_CONE')
assert g.volume_element_comoving(0.4, 0.02, 0.0) == 0.0
assert abs(g.volume_element_comoving(0.4, 0.02) - g.volume_element_comoving(0.4, 0.02, 3.0)) < 1e-12
'''
