"""lens planes along the line of sight"""
from engine.api import contract
from engine.kit import Real

PROPERTY = dict(
    title='Lens planes tile the line of sight without gaps, overlaps or strays',
    statement="""For every lens and source redshift and plane spacing, the lens planes start at the first rendering redshift, are
    spaced by the requested step, all lie below the source, and include the main deflector's redshift as a plane. Each plane
    has one slice thickness, the distance to the next plane (the last one: to the source), so the slices add up to the whole
    line of sight up to the rounding to two decimals that both lists share.""",
    over=['inputs'],
    forall='every lens redshift (or none), source redshift and spacing, including lenses closer than the first plane',
    tests='plane counts and the two seams (at the lens and at the source) depend on the redshifts, tests use a couple of them',
    files=['pyHalo/utilities.py'],
    mechanism=[('generate_lens_plane_redshifts', 'pyHalo/utilities.py')],
)


def rounded(k, got, x):
    """got is x rounded to two decimals (either neighbour when x is half-way, up to floating point)"""
    if k.sym:
        return k.Eq(got, k.round(x, 2))
    return abs(got - x) <= 0.005 + 1e-9 and abs(got * 100 - round(got * 100)) < 1e-6


def planes(k, first, zl, zs, step, redshifts, thickness):
    """postcondition: [first, zl) and [zl, zs) cut into steps; thickness[i] = plane[i+1] - plane[i], last one up to zs"""
    import numpy as np
    n1 = k.len(k.run(np.arange, first, zl, step)) if zl is not None else 0
    start = zl if zl is not None else first
    n2 = k.len(k.run(np.arange, start, zs, step))
    k.eq('number of planes', k.len(redshifts), n1 + n2)
    k.eq('one thickness per plane', k.len(thickness), n1 + n2)

    def plane(i):
        return k.ite(i < n1, first + i * step, start + (i - n1) * step)
    k.check('plane redshifts', k.forall(lambda e: rounded(k, e[1], plane(e[0])), k.index(redshifts)))
    k.check('slice thicknesses', k.forall(lambda e: rounded(k, e[1], k.ite(e[0] < n1 + n2 - 1, plane(e[0] + 1), zs)
                                                                      - plane(e[0])), k.index(thickness)))
    k.check('planes lie below the source', k.forall(lambda e: plane(e[0]) < zs + (0 if k.sym else 1e-9), k.index(redshifts)))
    return n1, n2, plane


@contract('planes with a main deflector', ['generate_lens_plane_redshifts'], timeout=8.0)
def with_lens(k):
    from pyHalo.utilities import generate_lens_plane_redshifts
    zl = k.real('zl', Real(0.005, 2.0, pool=(0.5, 0.2, 0.01)))
    zs = zl + k.real('dz', Real(0.001, 3.0, pool=(1.0, 0.03)))
    step = k.choice('step', [0.02, None, 0.05, 0.13])
    k.begin()
    z, dz = k.run(generate_lens_plane_redshifts, zl, zs, step) if step is not None else \
        k.run(generate_lens_plane_redshifts, zl, zs)
    n1, n2, plane = planes(k, 0.01, zl, zs, step or 0.02, z, dz)
    k.check('the main deflector is a plane', n1 < k.len(z))
    k.check('the main deflector is the first plane not in front of it', k.forall(lambda e: k.Or(k.Not(k.Eq(e[0], n1)), rounded(k, e[1], zl)), k.index(z)))


@contract('planes without a main deflector', ['generate_lens_plane_redshifts'])
def without_lens(k):
    from pyHalo.utilities import generate_lens_plane_redshifts
    zs = k.real('zs', Real(0.011, 4.0))
    step = k.choice('step', [0.02, 0.05])
    k.begin()
    z, dz = k.run(generate_lens_plane_redshifts, None, zs, step)
    planes(k, 0.01, None, zs, step, z, dz)
