SEED = dict(property='P06', edits=[('pyHalo/single_realization.py',
 "            redshift_array += [halo.z] * len(lens_model_name)\n",
 "            redshift_array += [halo.z for _ in kwargs_halo] if i else [halo.z]\n")],
 needs='the first halo of the realization has a profile made of several lens models',
 breaks='the redshift list is shorter than the lists of names and keyword arguments')
DEMO = '''
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 2.0

    class cosmo(object):
        astropy = None


class H(object):
    mdef, r3d, is_subhalo, mass, x, y = 'TNFW', None, False, 1e7, 0., 0.

    def __init__(self, z, n):
        self.z, self.unique_tag = z, z
        self.lenstronomy_ID = ['P%d' % i for i in range(n)]
        self.lenstronomy_params = ([{'i': i} for i in range(n)], None)
f = lambda d: 0.25
for ns in ([1, 1], [1, 2], [2, 1], [3, 1, 2]):
    r = Realization.from_halos([H(0.1 * (j + 1), n) for j, n in enumerate(ns)], LC(), {}, False, None, f, f, None)
    names, zs, kw, _ = r.lensing_quantities()
    want = [0.1 * (j + 1) for j, n in enumerate(ns) for _ in range(n)]
    assert len(names) == len(kw) == sum(ns) and list(zs) == want, (ns, list(zs))
'''
