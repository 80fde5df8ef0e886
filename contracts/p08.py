"""aligning the halos with the path to the source"""
from engine.api import contract
from engine.kit import Real
from .common import halos, realization, carried_over, ZH

PROPERTY = dict(
    title='Aligning halos with the light path moves each movable halo exactly once',
    statement="""Shifting a realization along a ray moves every halo without a fixed position, and at or above the minimum
    redshift, by the ray's angle at the halo's comoving distance; halos with fixed positions stay where they are, movable
    halos below the minimum redshift are dropped, and order and all other halo properties are kept. The ray becomes the
    rendering centre, the result is marked so that shifting it (or anything derived from it) again changes nothing, and lens
    model keywords computed before the move are not reused afterwards.""",
    over=['inputs', 'histories'],
    forall='every population, ray, minimum redshift and sequence of shifts, filters, joins and splits',
    tests='no stable test shifts a realization; a double shift needs a particular sequence of calls',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.shift_background_to_source', 'pyHalo/single_realization.py'),
               ('_has_been_shifted carried by filter, join, split_at_z, realization_at_z', 'pyHalo/single_realization.py')],
)


def ray(k):
    return k.fn('ray_x', Real(-3, 3)), k.fn('ray_y', Real(-3, 3))


@contract('first shift', ['Realization.shift_background_to_source'])
def first(k):
    r = realization(k, shifted=False)
    rx, ry = ray(k)
    zmin = k.real('zmin', Real(0, 2, pool=(0.0, 0.5)))
    hs = k.parts(r.halos)
    kept = lambda h: k.Or(h.fixed_position, k.Not(h.z < zmin))
    D = r.lens_cosmo.cosmo.D_C_z
    wx = k.map(lambda h: k.ite(h.fixed_position, h.x, h.x + rx(D(h.z))), k.filter(kept, hs))
    wy = k.map(lambda h: k.ite(h.fixed_position, h.y, h.y + ry(D(h.z))), k.filter(kept, hs))
    same = ['mass', 'z', 'r3d', 'unique_tag', 'is_subhalo', 'bound_mass', 'fixed_position']
    old = [k.map(lambda h, a=a: k.get(h, a), k.filter(kept, hs)) for a in same]
    k.begin()
    out = k.run(k.get(r, 'shift_background_to_source'), rx, ry, zmin)
    k.same('x', k.map(lambda h: h.x, out.halos), wx)
    k.same('y', k.map(lambda h: h.y, out.halos), wy)
    for a, o in zip(same, old):
        k.same('kept: ' + a, k.map(lambda h, a=a: k.get(h, a), out.halos), o)
    k.same('array of x', out.x, wx)
    k.same('array of y', out.y, wy)
    cx, cy = k.get(out, 'rendering_center')
    k.check('the ray is the new rendering centre', cx is rx and cy is ry)
    k.check('marked as shifted', out._has_been_shifted is True)
    r._has_been_shifted = True
    carried_over(k, 'settings', out, r, center=False)


@contract('a second shift changes nothing', ['Realization.shift_background_to_source'])
def second(k):
    r = realization(k, shifted=True)
    rx, ry = ray(k)
    zmin = k.real('zmin', Real(0, 2, pool=(0.0, 0.5)))
    hs = k.parts(r.halos)
    x, y = k.map(lambda h: h.x, hs), k.map(lambda h: h.y, hs)
    s = k.snap(r)
    k.begin()
    out = k.run(k.get(r, 'shift_background_to_source'), rx, ry, zmin)
    k.check('the same realization', out is r)
    k.unchanged('untouched', r, s)
    k.same('x', k.map(lambda h: h.x, out.halos), x)
    k.same('y', k.map(lambda h: h.y, out.halos), y)


@contract('derived realizations remember the shift',
          ['Realization.filter', 'Realization.filter_subhalos', 'Realization.join', 'Realization.split_at_z', 'realization_at_z'])
def derived(k):
    from pyHalo.single_realization import realization_at_z
    r = realization(k, shifted=True)
    z = k.real('z', ZH())
    how = k.choice('how', ['split', 'at_z', 'join', 'subhalos'])
    k.begin()
    if how == 'split':
        out = k.run(k.get(r, 'split_at_z'), z)
    elif how == 'at_z':
        out = [k.run(realization_at_z, r, z)[0]]
    elif how == 'join':
        o = realization(k, halos(k, 'b', 'nb'), r.lens_cosmo, ' 2nd', shifted=True)
        out = [k.run(k.get(r, 'join'), o)]
    else:
        out = [k.run(k.get(r, 'filter_subhalos'), 1.0, 7.0, [0.0], [0.5])]
    for o in out:
        k.check('still marked', o._has_been_shifted is True)


@contract('keywords computed before the move are not reused', ['Realization.shift_background_to_source'])
def caches(k):
    hs = halos(k, _kwargs_lenstronomy=Real(), _lenstronomy_args=Real(), _lenstronomy_args_split=Real())
    r = realization(k, hs, shifted=False)
    rx, ry = ray(k)
    which = k.choice('attr', ['_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split'])
    k.begin()
    out = k.run(k.get(r, 'shift_background_to_source'), rx, ry)
    k.check('no stale keywords on moved halos', k.forall(lambda h: k.Or(h.fixed_position, k.Not(k.has(h, which))), out.halos))
