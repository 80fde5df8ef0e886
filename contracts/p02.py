from engine.api import contract
from engine.kit import Real
from .common import halos, realization, carried_over, ZH

PROPERTY = dict(
    title='Mass-based subhalo cuts remove exactly the subhalos they document',
    statement="""The bound-mass cut removes exactly the subhalos whose bound mass is below the threshold and keeps every
    other halo; the aperture cut removes exactly the subhalos whose mass does not exceed the threshold and that are not closer
    than the aperture to any of the given coordinates, and never a field halo. Order is preserved and the parent's
    settings (cosmology, halo model, mass sheets, rendering classes and centre, geometry) carry over.""",
    over=['inputs'],
    forall='every population of halos, threshold, aperture and list of coordinates of any length',
    tests='no test calls either cut; exactness is a statement about all populations',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.filter_bound_mass', 'pyHalo/single_realization.py'), ('Realization.filter_subhalos', 'pyHalo/single_realization.py')],
)

# masses that differ from a threshold by a few parts in 1e9 are among those tried
CLOSE = (1e6, 1e7, 1e8, 10 ** 7.3 * (1 + 2e-9), 10 ** 7.3 * (1 - 2e-9), 1e7 * (1 + 3e-9))


def MASSES(k):
    return Real(0, None, lo_open=True, pool=CLOSE, tie='m') if k.sym else Real(1e5, 1e10, pool=CLOSE, tie='m')


@contract('filter_bound_mass', ['Realization.filter_bound_mass'])
def bound_mass(k):
    r = realization(k, halos(k, mass=MASSES(k), bound_mass=MASSES(k)))
    m = k.real('m', Real(0, None, pool=(1e6, 1e7, 10 ** 7.3), tie='m'))
    hs = k.parts(r.halos)
    out = k.run(k.get(r, 'filter_bound_mass'), m)
    k.same('kept', out.halos, k.filter(lambda h: k.Or(k.Not(h.is_subhalo), h.bound_mass >= m), hs))
    carried_over(k, 'filtered', out, r)


@contract('filter_subhalos', ['Realization.filter_subhalos'])
def subhalos(k):
    r = realization(k, halos(k, mass=MASSES(k)))
    hs = k.parts(r.halos)
    rad = k.real('rad', Real(0, 2, pool=(0.1, 0.5)))
    lm = k.real('logm', Real(5, 9, pool=(6., 7., 7.3, 8.)))
    nim = k.size('nimg', 1)
    xs = k.array('ximg', nim, Real(-1, 1, pool=(0.0, 0.4)))
    ys = k.array('yimg', nim, Real(-1, 1, pool=(0.0, 0.0)))
    out = k.run(k.get(r, 'filter_subhalos'), rad, lm, xs, ys)

    def keep(h):
        near = k.exists(lambda p: k.sqrt((h.x - p[0]) ** 2 + (h.y - p[1]) ** 2) < rad, k.zip(xs, ys))
        return k.Or(k.Not(h.is_subhalo), h.mass > 10 ** lm, near)
    k.same('kept', out.halos, k.filter(keep, hs))
    carried_over(k, 'filtered', out, r)
