"""redshift queries"""
from engine.api import contract
from engine.kit import Real
from .common import halos, lens_cosmo, realization, carried_over, ZH

PROPERTY = dict(
    title='Redshift queries select, count, weigh and split halos exactly',
    statement="""Querying a realization by redshift returns exactly the halos at that redshift with their positions in the
    realization (optionally only those inside an aperture); the counts before, at and after a redshift add up to the
    number of halos; splitting puts halos at or below the redshift in the first part and the rest in the second, losing none.
    The mass at a redshift is the sum of halo masses there, with bound masses used for subhalos in the main lens plane, and
    comoving coordinates are comoving distance times angle for every halo, in order.""",
    over=['inputs'],
    forall='every population of halos and every redshift, including ones that coincide with halo and lens redshifts',
    tests='no test touches these queries; a partition claim ranges over all populations and ties',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.halos_at_z', 'pyHalo/single_realization.py'), ('Realization.split_at_z', 'pyHalo/single_realization.py'),
               ('Realization.mass_at_z_exact', 'pyHalo/single_realization.py'), ('realization_at_z', 'pyHalo/single_realization.py')],
)


@contract('split_at_z partitions the halos, order kept', ['Realization.split_at_z'])
def split(k):
    r = realization(k)
    z = k.real('z', ZH())
    hs = k.parts(r.halos)
    k.begin()
    a, b = k.run(k.get(r, 'split_at_z'), z)
    k.same('first part: z <= split', a.halos, k.filter(lambda h: h.z <= z, hs))
    k.same('second part: z > split', b.halos, k.filter(lambda h: h.z > z, hs))
    k.eq('partition', k.len(a.halos) + k.len(b.halos), k.len(hs))
    carried_over(k, 'first', a, r)
    carried_over(k, 'second', b, r)


@contract('halos_at_z and the counters', ['Realization.halos_at_z', 'Realization.number_of_halos_*'])
def counts(k):
    r = realization(k)
    z = k.real('z', ZH())
    k.begin()
    hs = k.parts(r.halos)
    found, idx = k.run(k.get(r, 'halos_at_z'), z)
    k.same('halos at z', found, k.filter(lambda h: k.Eq(h.z, z), hs))
    k.same('their positions', idx, k.map(lambda p: p[0], k.filter(lambda p: k.Eq(p[1].z, z), k.index(hs))))
    n0 = k.run(k.get(r, 'number_of_halos_before_redshift'), z)
    n1 = k.run(k.get(r, 'number_of_halos_at_redshift'), z)
    n2 = k.run(k.get(r, 'number_of_halos_after_redshift'), z)
    k.eq('before', n0, k.count(lambda h: h.z < z, hs))
    k.eq('at', n1, k.count(lambda h: k.Eq(h.z, z), hs))
    k.eq('after', n2, k.count(lambda h: h.z > z, hs))
    k.eq('trichotomy', n0 + n1 + n2, k.len(hs))


@contract('mass_at_z_exact: bound masses of subhalos in the lens plane, halo masses elsewhere', ['Realization.mass_at_z_exact'])
def mass_at_z(k):
    lc = lens_cosmo(k)
    z = k.choice('where', ['lens', 'almost', 'other'])
    z = lc.z_lens if z == 'lens' else k.real('z', ZH()) if z == 'other' else lc.z_lens * (1 + k.real('off', Real(-1e-5, 1e-5, pool=(1e-7, -1e-7, 1e-9))))
    # some halos at exactly this redshift
    r = realization(k, halos(k, z=Real(0, 5, lo_open=True, tie='z') if k.sym else Real(0, 5, lo_open=True, pool=(z, z, z, lc.z_lens, 0.2))), lc=lc)
    k.begin()
    hs = k.parts(r.halos)
    m = k.run(k.get(r, 'mass_at_z_exact'), z)
    at_lens = k.Eq(z, r.lens_cosmo.z_lens)

    def each(h):
        own = k.ite(k.And(at_lens, h.is_subhalo), h.bound_mass, h.mass)
        return k.ite(k.Eq(h.z, z), own, 0.0)
    k.eq('total mass', m, k.sum(hs, each))


@contract('halo_comoving_coordinates', ['Realization.halo_comoving_coordinates'])
def comoving(k):
    r = realization(k)
    k.begin()
    hs = k.parts(r.halos)
    x, y, lm, z = k.run(k.get(r, 'halo_comoving_coordinates'))
    D = r.lens_cosmo.cosmo.D_C_z
    k.same('x', x, k.map(lambda h: D(h.z) * h.x, hs))
    k.same('y', y, k.map(lambda h: D(h.z) * h.y, hs))
    k.same('log10 mass', lm, k.map(lambda h: k.log10(h.mass), hs))
    k.same('z', z, k.map(lambda h: h.z, hs))


@contract('realization_at_z, whole plane', ['realization_at_z'])
def at_z(k):
    from pyHalo.single_realization import realization_at_z
    r = realization(k)
    z = k.real('z', ZH())
    sheet = k.bool('keep_sheets')
    k.begin()
    hs = k.parts(r.halos)
    out, idx = k.run(realization_at_z, r, z, None, None, None, sheet)
    k.same('halos', out.halos, k.filter(lambda h: k.Eq(h.z, z), hs))
    k.same('indexes', idx, k.map(lambda p: p[0], k.filter(lambda p: k.Eq(p[1].z, z), k.index(hs))))
    k.eq('mass sheet setting', out.apply_mass_sheet_correction, sheet)
    k.check('geometry kept', out.geometry is r.geometry)
    k.check('halo model kept', out.kwargs_halo_model is r.kwargs_halo_model)
    k.same('rendering classes kept', out.rendering_classes, r.rendering_classes)


@contract('realization_at_z, inside an aperture', ['realization_at_z'])
def at_z_aperture(k):
    from pyHalo.single_realization import realization_at_z
    r = realization(k)
    z = k.real('z', ZH())
    cx, cy = k.real('cx', Real(-1, 1, pool=(0.0,))), k.real('cy', Real(-1, 1, pool=(0.0,)))
    rng = k.real('range', Real(0, 2, pool=(0.1, 0.5)))
    k.begin()
    hs = k.parts(r.halos)
    out, idx = k.run(realization_at_z, r, z, cx, cy, rng)
    near = lambda h: k.And(k.Eq(h.z, z), k.sqrt((h.x - cx) ** 2 + (h.y - cy) ** 2) < rng)
    k.same('halos', out.halos, k.filter(near, hs))
    k.same('indexes', idx, k.map(lambda p: p[0], k.filter(lambda p: near(p[1]), k.index(hs))))


@contract('subhalos / field_halos partition the halos', ['Realization.subhalos', 'Realization.field_halos'])
def by_kind(k):
    r = realization(k)
    k.begin()
    hs = k.parts(r.halos)
    s, f = k.run(lambda: k.get(r, 'subhalos')), k.run(lambda: k.get(r, 'field_halos'))
    k.same('subhalos', s, k.filter(lambda h: h.is_subhalo, hs))
    k.same('field halos', f, k.filter(lambda h: k.Not(h.is_subhalo), hs))
