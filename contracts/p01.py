"""the light-ray aperture filter"""
import math
from engine.api import contract
from engine.kit import Real
from .common import halos, realization, carried_over, lens_cosmo, cosmo

PROPERTY = dict(
    title='Ray-aperture filtering keeps exactly the halos the documented rule keeps',
    statement="""Filtering a realization around light rays keeps a halo if and only if its mass is at least the global
    threshold or it lies within the (optionally geometrically weighted) aperture of at least one ray at the halo's own
    comoving distance, in angular or comoving-kpc units; any other unit is refused. The weight is D(Ds-D)/(Ds/2)^2 clipped
    to [w_min, 1]. The kept halos come out grouped by increasing redshift with their order preserved, the parent is
    untouched, and cosmology, halo model, mass-sheet setting, rendering classes, rendering centre and geometry carry over.""",
    over=['inputs', 'configurations'],
    forall='every population of halos, aperture, threshold, w_min, and pair of ray paths, in both units, weighted or not',
    tests='the suite only exercises three unrelated modules; no test filters a realization, and boundary cases need every input',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.filter', 'pyHalo/single_realization.py'), ('Realization.from_halos', 'pyHalo/single_realization.py')],
    note='The number of rays is fixed at two (one in the unit-error contract); everything else is unbounded.',
)

ARCSEC = math.pi / (180.0 * 3600.0)


def setup(k, nray):
    lc = lens_cosmo(k)
    r = realization(k, lc=lc)
    rad = k.real('aperture', Real(0, 3.0, pool=(0.1, 0.5)))
    lm = k.real('logm', Real(5, 9, pool=(6., 7., 8.)))
    wmin = k.real('w_min', Real(0.0, 1.0, pool=(0.1,)))
    rays = [(k.fn('ray%d_x' % i, Real(-1, 1)), k.fn('ray%d_y' % i, Real(-1, 1))) for i in range(nray)]
    return lc, r, rad, lm, wmin, rays


def spec_keep(k, lc, rad, lm, wmin, rays, units, geom):
    chi_s = lc.cosmo.D_C_z(lc.z_source)

    def keep(h):
        chi = lc.cosmo.D_C_z(h.z)
        if geom:
            w = chi * (chi_s - chi) / (chi_s / 2.0) ** 2
            w = k.min(k.max(w, wmin), 1.0)
        else:
            w = 1.0
        unit = 1.0 if units == 'ANGLES' else ARCSEC * chi * 1e3
        near = False
        for fx, fy in rays:
            dx, dy = h.x - fx(chi), h.y - fy(chi)
            near = k.Or(near, k.sqrt((dx * unit) ** 2 + (dy * unit) ** 2) <= rad * w)
        return k.Or(h.mass >= 10 ** lm, near)
    return keep


def body(k, units, geom, nray):
    lc, r, rad, lm, wmin, rays = setup(k, nray)
    hs = k.parts(r.halos)
    snap = k.snap(r)
    k.begin()
    out = k.run(k.get(r, 'filter'), rad, lm, [a for a, _ in rays], [b for _, b in rays], units, geom, wmin)
    keep = spec_keep(k, lc, rad, lm, wmin, rays, units, geom)
    uz = k.parts(r.unique_redshifts)
    # membership: exactly the halos the rule keeps, grouped by lens plane in increasing redshift, order kept inside
    planes = k.flatmap(lambda z: k.filter(lambda h: k.And(k.Eq(h.z, z), keep(h)), hs), uz)
    k.same('kept halos, grouped by lens plane', out.halos, planes)
    k.check('no kept halo violates the rule', k.forall(keep, out.halos))
    carried_over(k, 'filtered', out, r)
    k.unchanged('parent untouched', r, snap)


@contract('filter: angular aperture, two rays', ['Realization.filter'])
def angles_weighted(k):
    body(k, 'ANGLES', True, 2)


@contract('filter: comoving aperture, two rays', ['Realization.filter'])
def kpc_weighted(k):
    body(k, 'KPC', True, 2)


@contract('filter: no geometric weighting', ['Realization.filter'])
def angles_flat(k):
    body(k, 'ANGLES', False, 1)


@contract('filter: unknown units are rejected', ['Realization.filter'])
def units(k):
    lc, r, rad, lm, wmin, rays = setup(k, 1)
    hs = k.parts(r.halos)
    k.begin()
    out = k.call(k.get(r, 'filter'), rad, lm, [rays[0][0]], [rays[0][1]], 'arcsec')
    below = k.exists(lambda h: h.mass < 10 ** lm, hs)
    if out.ok:
        k.check('accepted only when no halo needs the aperture test', k.Not(below))
    else:
        k.check('rejected with an exception', out.raised(Exception))
