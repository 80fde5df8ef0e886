SEED = dict(property='P20', edits=[('pyHalo/realization_extensions.py',
 "            for halo_index in np.unique(rescale_indicies):\n                realization_copy.halos[halo_index].rescale_normalization(rescale_factor, log=False, force=True)\n",
 "            for halo_index in rescale_indicies:\n                realization_copy.halos[halo_index].rescale_normalization(rescale_factor, log=False, force=True)\n")],
 needs='two rays passing within the rendering radius of the same halo',
 breaks='a halo near two images loses the mass fraction twice')
DEMO = '''
import numpy as np
import pyHalo.realization_extensions as re


class O(object):
    pass
done = []


class H(object):
    def rescale_normalization(self, f, **kw):
        done.append(f)


class R(object):
    def __init__(self, *a, **kw):
        self.halos = [H(), H()]

    def join(self, o):
        return self
re.Realization = R


class CS(object):
    def __init__(self, *a):
        pass

    def render(self, *a):
        return np.array([1.]), np.array([1.]), np.array([1.]), [None], np.array([.5]), [False], 0.8, np.array([1])
re.CorrelatedStructure = CS
re.generate_lens_plane_redshifts = lambda *a: ([0.5], [0.1])
p = R()
p.lens_cosmo, p.geometry = O(), None
p.lens_cosmo.z_lens, p.lens_cosmo.z_source = 0.5, 2.0
e = re.RealizationExtensions.__new__(re.RealizationExtensions)
e._realization = p
e.add_correlated_structure('M', {}, 'PT_MASS', [0, 1], [0, 1], 0.1, 0.2)
assert done == [0.8], done
'''
