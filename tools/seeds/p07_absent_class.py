SEED = dict(property='P07', edits=[('pyHalo/single_realization.py',
 """                if rendering_class is None:
                    continue
""", """                if rendering_class is None:
                    break
""")],
 needs='an absent rendering class listed before a present one (a population without subhalos joined with one that has field halos)',
 breaks='rendering classes listed after an absent one are never asked for their mass sheets')
DEMO = '''
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 2.0

    class cosmo(object):
        astropy = None
        D_C_z = staticmethod(lambda z: 2000.0 * z)


class R(object):
    name = 'LINE_OF_SIGHT'

    def convergence_sheet_correction(self, *a):
        return [{'kappa': -0.1}], ['CONVERGENCE'], [0.4]
f = lambda d: 0.25
r = Realization.from_halos([], LC(), {}, True, [None, R()], f, f, None)
kw, names, zs = r._mass_sheet_correction(r.rendering_classes)
assert names == ['CONVERGENCE'] and zs == [0.4] and kw == [{'kappa': -0.1, 'ra_0': 0.25, 'dec_0': 0.25}], (kw, names, zs)
'''
