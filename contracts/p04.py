"""join"""
from engine.api import contract
from engine.kit import Real
from .common import halos, realization, carried_over, lens_cosmo

PROPERTY = dict(
    title='Joining two realizations keeps every distinct halo exactly once',
    statement="""The join of two realizations contains all halos of the shorter one followed by those halos of the longer one
    whose tag does not occur in the shorter one, so no tag of either operand is lost and none of the longer one's shared
    halos is duplicated. Rendering classes are those of the first operand, or both concatenated on request; all
    other settings come from the first operand, and neither operand is modified.""",
    over=['inputs'],
    forall='every pair of populations of any sizes, with any overlap of tags',
    tests='no test joins realizations; overlaps, equal lengths and aliasing of rendering-class lists need every pair',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.join', 'pyHalo/single_realization.py')],
)


def two(k, rc=False):
    lc = lens_cosmo(k)
    a = realization(k, halos(k, 'a', 'na'), lc, tag=' 1st')
    b = realization(k, halos(k, 'b', 'nb'), lc, tag=' 2nd')
    return a, b


@contract('join: every halo of the shorter one, then those of the longer one with a new tag', ['Realization.join'])
def join(k):
    a, b = two(k)
    sa, sb = k.snap(a), k.snap(b)
    k.begin()
    out = k.run(k.get(a, 'join'), b)
    ha, hb = k.parts(a.halos), k.parts(b.halos)
    longer_a = k.len(ha) >= k.len(hb)
    dup = lambda h, other: k.exists(lambda o: k.Eq(o.unique_tag, h.unique_tag), other)
    if longer_a:
        want = k.concat(hb, k.filter(lambda h: k.Not(dup(h, hb)), ha))
    else:
        want = k.concat(ha, k.filter(lambda h: k.Not(dup(h, ha)), hb))
    k.same('halos', out.halos, want)
    k.check('no halo of the first is lost', k.forall(
        lambda h: k.exists(lambda o: k.Eq(o.unique_tag, h.unique_tag), out.halos), ha))
    k.check('no halo of the second is lost', k.forall(
        lambda h: k.exists(lambda o: k.Eq(o.unique_tag, h.unique_tag), out.halos), hb))
    carried_over(k, 'joined', out, a)
    k.unchanged('first operand untouched', a, sa)
    k.unchanged('second operand untouched', b, sb)


@contract('join of rendering classes', ['Realization.join'])
def join_classes(k):
    a, b = two(k)
    k.begin()
    out = k.run(k.get(a, 'join'), b, True)
    k.same('rendering classes concatenated', out.rendering_classes, a.rendering_classes + b.rendering_classes)
    k.same('the operands keep theirs', [a.rendering_classes, b.rendering_classes], [['RC 1st'], ['RC 2nd']])
    carried_over(k, 'joined', out, a, rc=False)
