SEED = dict(property='P04', edits=[('pyHalo/single_realization.py',
 "            rendering_classes = rendering_class_self + rendering_class_new\n",
 "            rendering_class_self += rendering_class_new\n            rendering_classes = rendering_class_self\n")],
 needs='two realizations joined with join_rendering_classes=True, then the first operand (or anything sharing its list) used again',
 breaks="the first operand's list of rendering classes is extended in place, so its mass sheets are counted twice afterwards")
DEMO = '''
from pyHalo.single_realization import Realization


class LC(object):
    z_lens, z_source = 0.5, 1.5

    class cosmo(object):
        astropy = None
f = lambda d: 0.0
a = Realization.from_halos([], LC(), {}, True, ['A'], f, f, None)
b = Realization.from_halos([], LC(), {}, True, ['B'], f, f, None)
j = a.join(b, join_rendering_classes=True)
assert j.rendering_classes == ['A', 'B'], j.rendering_classes
assert a.rendering_classes == ['A'], a.rendering_classes
assert b.rendering_classes == ['B'], b.rendering_classes
'''
