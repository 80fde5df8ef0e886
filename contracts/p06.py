"""assembly of the lens model lists"""
from engine.api import contract
from engine.kit import Real, Bool, Build, Str
from .common import halos, realization, lens_cosmo

PROPERTY = dict(
    title='Lens model lists stay parallel and complete, in halo order',
    statement="""The lens quantities of a realization contain, in halo order, every profile name of every halo with that
    profile's keyword arguments and the halo's redshift, so the name, redshift and keyword lists always have equal length
    and line up entry by entry. If mass-sheet correction is enabled both on the realization and in the call, the sheets
    follow the halos in the same three lists and nothing else changes; otherwise no sheet is added.""",
    over=['inputs', 'configurations'],
    forall='every population, including halos made of several profiles and empty realizations; both mass-sheet switches',
    tests='the lensing library is not installed where the tests run; alignment must hold for every mixture of halo kinds',
    files=['pyHalo/single_realization.py'],
    mechanism=[('Realization.lensing_quantities', 'pyHalo/single_realization.py')],
)


def lensing_halos(k, table=None):
    def names(h):
        return k.concat(['MAIN'], k.filter(lambda v: h.composite, ['EXTRA']))

    def params(h):
        return k.concat([{'theta': h.theta, 'center_x': h.x}], k.filter(lambda v: h.composite, [{'extra': h.extra}])), None
    hs = halos(k, composite=Bool(), theta=Real(0, 1), extra=Real(0, 1), lenstronomy_ID=Build(names), lenstronomy_params=Build(params))
    return hs, names, params


@contract('lensing_quantities without mass sheets', ['Realization.lensing_quantities'])
def no_sheets(k):
    hs, names, params = lensing_halos(k)
    r = realization(k, hs)
    call = k.bool('add_sheet')
    k.assume(k.Not(k.And(r.apply_mass_sheet_correction, call)))
    k.begin()
    ids, zs, kw, interp = k.run(k.get(r, 'lensing_quantities'), call)
    h = k.parts(hs)
    k.same('profile names', ids, k.flatmap(names, h))
    k.same('keyword arguments', kw, k.flatmap(lambda o: params(o)[0], h))
    k.same('redshifts', zs, k.flatmap(lambda o: k.map(lambda q: o.z, names(o)), h))
    k.check('no numerical deflection class', interp is None)


@contract('lensing_quantities with mass sheets', ['Realization.lensing_quantities'])
def with_sheets(k):
    hs, names, params = lensing_halos(k)
    r = realization(k, hs, sheet=True)
    m = k.size('nsheet', 0)
    kap, zsh = k.list('kappa', m, Real(-1, 0)), k.list('z_sheet', m, Real(0.01, 3))
    use = k.bool('use')
    got = {}

    def sheets(rendering_classes, use_class_mass_ranges=False, **kws):
        got.update(rc=rendering_classes, use=use_class_mass_ranges, kw=kws)
        return k.map(lambda v: {'kappa': v}, kap), k.map(lambda v: 'CONVERGENCE', kap), zsh
    r._mass_sheet_correction = sheets
    k.begin()
    ids, zs, kw, interp = k.run(k.get(r, 'lensing_quantities'), True, use, {'zmin': 0.5, 'kappa_scale': 2.0})
    h = k.parts(hs)
    k.same('profile names', ids, k.concat(k.flatmap(names, h), k.map(lambda v: 'CONVERGENCE', kap)))
    k.same('keyword arguments', kw, k.concat(k.flatmap(lambda o: params(o)[0], h), k.map(lambda v: {'kappa': v}, kap)))
    k.same('redshifts', zs, k.concat(k.flatmap(lambda o: k.map(lambda q: o.z, names(o)), h), zsh))
    k.same('sheet options passed on', [got['rc'], got['kw']], [r.rendering_classes, {'zmin': 0.5, 'kappa_scale': 2.0}])
    k.eq('mass range option passed on', got['use'], use)


@contract('a numerical deflection class given by a halo is returned', ['Realization.lensing_quantities'])
def interp_class(k):
    hs = halos(k, has=Bool(), lenstronomy_ID=Build(lambda h: ['N']), theta=Real(0, 1),
               lenstronomy_params=Build(lambda h: ([{'theta': h.theta}], k.ite(h.has, 'CLASS', None))))
    r = realization(k, hs, sheet=False)
    k.begin()
    ids, zs, kw, interp = k.run(k.get(r, 'lensing_quantities'))
    k.same('profile names', ids, k.map(lambda h: 'N', k.parts(hs)))
    k.same('keyword arguments', kw, k.map(lambda h: {'theta': h.theta}, k.parts(hs)))
    k.same('the class', interp, k.ite(k.exists(lambda h: h.has, k.parts(hs)), 'CLASS', None))
