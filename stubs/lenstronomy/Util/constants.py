import math
G = 6.67384e-11
c = 299792458.0
M_sun = 1.9891e30
pc = 3.0856776e16
Mpc = 3.0856776e22
arcsec = 2 * math.pi / 360 / 3600
