"""stand-ins for what a preset model calls: they record what it asks for"""
from engine.kit import Real
from .common import posgen

GALACTICUS = ['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24']
NAMES = ('DIEMERJOYCE19', 'LUDLOW2016', 'BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022', 'WDM_POLYNOMIAL', 'LUDLOW_WDM', 'BINNED_HALO_MASS')
RENDER = ('population_model_list', 'mass_function_class_list', 'kwargs_mass_function_list', 'spatial_distribution_class_list',
          'kwargs_spatial_distribution_list', 'geometry_class', 'mdef_subhalos', 'mdef_field_halos', 'kwargs_halo_model',
          'two_halo_Lazar_correction', 'scale_2halo_boost_factor', 'nrealizations', 'lens_plane_spacing')


class Presets(object):
    """the rendering entry point, geometry, model tables and extensions, replaced by recorders"""

    def __init__(self, k):
        import pyHalo.pyhalo as entry
        import pyHalo.Cosmology.geometry as geo
        import pyHalo.concentration_models as conc
        import pyHalo.truncation_models as trunc
        import pyHalo.realization_extensions as ext
        self.k = k
        self.entries, self.geometries, self.renders, self.infall, self.steps = [], [], [], [], []
        self.cosmology = k.obj(astropy='ASTROPY', kpc_proper_per_asec=k.fn('kpc_per_asec', posgen(k, 0.5, 9)))
        self.lens_cosmo = k.obj(setup_infall_model=lambda m, kw: self.infall.append((m, dict(kw or {}))), cosmo=self.cosmology)
        self.entry = k.obj(cosmology=self.cosmology, lens_cosmo=self.lens_cosmo, astropy_cosmo='ASTROPY', render=self._render)
        self.geometry = k.obj(what='GEOMETRY')
        self.rendered = k.obj(what='RENDERED', lens_cosmo=self.lens_cosmo)
        self.median = {n: k.fn('concentration of a host, ' + n, posgen(k, 1, 20)) for n in NAMES}
        self.classes = {}
        self.cusps = False
        k.override(entry.pyHalo, lambda zl, zs, kwargs_cosmo=None: (self.entries.append((zl, zs, kwargs_cosmo)), self.entry)[1])
        k.override(geo.Geometry, lambda co, zl, zs, angle, kind: (self.geometries.append((co, zl, zs, angle, kind)), self.geometry)[1])
        k.override(conc.preset_concentration_models, self._concentration)
        k.override(trunc.truncation_models, self._truncation)
        k.override(ext.RealizationExtensions, lambda r: self._extensions(r))

    def _render(self, *a, **kw):
        kw = dict(zip(RENDER, a), **kw)
        self.renders.append(kw)
        return [self.rendered] * kw.get('nrealizations', 1)

    def _class(self, kind, name):
        key = (kind, name)
        if key not in self.classes:
            def make(*a, **kw):
                # the concentration of a model as evaluated at (mass, redshift), of which class
                return self.k.obj(kind=key, args=a, kwargs=kw, nfw_concentration=lambda m, z, *q, **kv: self.median[name](m, z))
            self.classes[key] = make
        return self.classes[key]

    def _concentration(self, name, kwargs_model=None):
        kw = dict(kwargs_model or {})
        if name in ('BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022'):
            kw.update(concentration_cdm_class='CDM CLASS OF ' + name, c_scale=60.0)
        return self._class('concentration', name), kw

    def _truncation(self, name):
        return self._class('truncation', name), ({'LOS_truncation_factor': 200} if name == 'TRUNCATION_R200' else {})

    def _extensions(self, realization):
        def step(what, names, **defaults):
            def run(*a, **kw):
                self.steps.append((what, realization, dict(defaults, **dict(zip(names, a), **kw))))
                return self.k.obj(what=what, parent=realization, lens_cosmo=self.lens_cosmo)
            return run
        more = {'add_prompt_cusps': step('CUSPS', ())} if self.cusps else {}
        return self.k.obj(**more, SIS_injection=step('SIS', ('mass_threshold', 'galaxy_model'), galaxy_model='GNFW'),
                          add_globular_clusters=step('GC', ('log10_mgc_mean', 'log10_mgc_sigma', 'rendering_radius_arcsec')))

    # ---- obligations shared by the presets
    def setting(self, zl, zs, angle, geometry, cosmo):
        k = self.k
        k.check('one rendering, in the requested lens and cosmology', len(self.entries) == 1 and len(self.renders) == 1 and self.entries[0][0] is zl
                and self.entries[0][1] is zs and self.entries[0][2] is cosmo)
        g = self.geometries
        k.check('one geometry', len(g) == 1 and g[0][0] is self.cosmology and g[0][1] is zl and g[0][2] is zs and g[0][4] == geometry
                and self.renders[0]['geometry_class'] is self.geometry)
        k.eq('opening angle', g[0][3], angle)
        k.check('one realization', self.renders[0].get('nrealizations', 1) == 1)

    def population(self, want):
        """want: (population, mass function class, its options, spatial class, its options) in order"""
        k = self.k
        r = self.renders[0]
        n = len(want)
        k.check('populations', list(r['population_model_list']) == [w[0] for w in want])
        k.check('mass function classes', len(r['mass_function_class_list']) >= n and all(a is w[1] for a, w in zip(r['mass_function_class_list'], want)))
        k.check('spatial distribution classes', len(r['spatial_distribution_class_list']) >= n
                and all(a is w[3] for a, w in zip(r['spatial_distribution_class_list'], want)))
        for i, w in enumerate(want):
            tag = '%d %s: ' % (i, w[0])
            got = r['kwargs_mass_function_list'][i]
            for key in sorted(w[2]):
                k.same(tag + key, got.get(key), w[2][key])
            if w[0] == 'SUBHALOS':
                k.check(tag + 'one amplitude', ('sigma_sub' in got) != ('dndA' in got))
            got = r['kwargs_spatial_distribution_list'][i]
            k.check(tag + 'spatial options', sorted(got) == sorted(w[4]))
            for key in sorted(w[4]):
                k.same(tag + key, got[key], w[4][key])

    def halo_model(self, key, kind, name, must, free=()):
        """the model of one kind of halo: the named class, built with these options and no others but `free`"""
        k = self.k
        m = self.renders[0]['kwargs_halo_model'][key]
        k.check(key + ': model', m.kind == (kind, name))
        k.check(key + ': options', sorted(set(m.kwargs) - set(free)) == sorted(must))
        for q in sorted(must):
            if callable(must[q]):
                k.check('%s: %s' % (key, q), m.kwargs[q] is must[q])
            else:
                k.same('%s: %s' % (key, q), m.kwargs[q], must[q])

    def spatial(self, kind, angle, r_tidal, log_m_host, c_host, zl):
        import pyHalo.Rendering.SpatialDistributions.uniform as uni
        import pyHalo.Rendering.SpatialDistributions.nfw as nfw
        if kind == 'UNIFORM':
            return uni.Uniform, {'rmax2d_arcsec': angle / 2, 'geometry': self.geometry}
        return nfw.ProjectedNFW, {'m_host': 10 ** log_m_host, 'zlens': zl, 'c_host': c_host, 'rmax2d_arcsec': angle / 2,
                                  'r_core_units_rs': r_tidal, 'lens_cosmo': self.lens_cosmo}

    def field(self, angle):
        import pyHalo.Rendering.SpatialDistributions.uniform as uni
        return uni.LensConeUniform, {'cone_opening_angle': angle, 'geometry': self.geometry}

    def untouched(self, label, options, before):
        self.k.check(label, options == before)


def numbers(k):
    """numeric options every preset takes"""
    R = k.real
    return dict(zl=R('z_lens', Real(0.1, 1.0, pool=(0.5,))), zs=R('z_source', Real(1.2, 4.0, pool=(1.5, 2.0))),
                sigma=R('sigma_sub', Real(0.0, 0.2, pool=(0.0, 0.025))), lo=R('log_mlow', Real(5, 7.5, pool=(6.0,))),
                hi=R('log_mhigh', Real(8, 11, pool=(10.0,))), slope=R('shmf_log_slope', Real(-2, -1.8, pool=(-1.9,))),
                angle=R('cone_opening_angle', Real(1, 12, pool=(6.0,))), mh=R('log_m_host', Real(12.5, 14, pool=(13.0, 13.3))),
                rt=R('r_tidal', Real(0.1, 1, pool=(0.25,))), los=R('LOS_normalization', Real(0, 2, pool=(0.0, 1.0))),
                hs=R('host_scaling', Real(0, 1, pool=(0.55,))), rs=R('redshift_scaling', Real(0, 1, pool=(0.37,))))


class Derived(object):
    """a preset built on another one: the underlying presets and the extensions are recorders that know the real parameter names"""

    def __init__(self, k, *bases):
        import pyHalo.realization_extensions as ext
        self.k = k
        self.calls, self.steps = [], []
        self.lens_cosmo = k.obj(what='LENS COSMO')
        real = ext.RealizationExtensions
        self.sig = {f: self._signature(f) for f in bases}
        for f in bases:
            k.override(f, self._base(f))
        methods = {n: self._signature(getattr(real, n), skip=1) for n in ('core_collapse_by_mass', 'add_core_collapsed_halos', 'toSIDM_from_cross_section',
                                                                          'add_globular_clusters', 'add_black_holes', 'add_ULDM_fluctuations')}
        k.override(real, lambda r: k.obj(**{n: self._step(n, r, methods[n]) for n in methods}))

    @staticmethod
    def _signature(f, skip=0):
        import inspect
        ps = list(inspect.signature(f).parameters.values())[skip:]
        return [p.name for p in ps if p.kind != p.VAR_KEYWORD], {p.name: p.default for p in ps if p.default is not p.empty}

    def realization(self, what, parent=None):
        r = self.k.obj(what=what, parent=parent, lens_cosmo=self.lens_cosmo)
        r.join = lambda other: self.joined(r, other)
        return r

    def joined(self, a, b):
        self.steps.append(('join', a, {'other': b}))
        return self.realization('join', a)

    def _base(self, f):
        names, defaults = self.sig[f]

        def run(*a, **kw):
            assert len(a) <= len(names) and not set(names[:len(a)]) & set(kw) and not set(kw) - set(names), 'no such call'
            self.calls.append((f.__name__, dict(defaults, **dict(zip(names, a), **kw))))
            return self.realization(f.__name__)
        return run

    def _step(self, n, realization, sig):
        names, defaults = sig

        def run(*a, **kw):
            self.steps.append((n, realization, dict(defaults, **dict(zip(names, a), **kw))))
            return 'INDEX' if n == 'core_collapse_by_mass' else self.realization(n, realization)
        return run

    def options(self, f, base, fixed=(), own=()):
        """distinct values for every option that f shares with the preset it builds on"""
        k = self.k
        names = [n for n in self._signature(f)[0] if n in self.sig[base][0] and n not in fixed and n not in own]
        out = {}
        for i, n in enumerate(names):
            out[n] = k.real(n, Real(0.5 + i, 0.9 + i)) if isinstance(self.sig[base][1].get(n, 0.0), float) else k.obj(option=n)
        return out

    def passed(self, i, given, fixed):
        """the i-th underlying call got the given options, the fixed ones, and its own defaults otherwise"""
        k = self.k
        name, got = self.calls[i]
        base = [f for f in self.sig if f.__name__ == name][0]
        for n in self.sig[base][0]:
            if n in given:
                k.same('%s: %s as given' % (name, n), got.get(n), given[n]) if not hasattr(given[n], 'option') else \
                    k.check('%s: %s as given' % (name, n), got.get(n) is given[n])
            elif n in fixed:
                k.same('%s: %s' % (name, n), got.get(n), fixed[n])
            else:
                k.check('%s: %s left at its default' % (name, n), got.get(n) == self.sig[base][1].get(n))

    def order(self, *names):
        self.k.check('steps', [s[0] for s in self.steps] == list(names))

    def step(self, i, on, options):
        k = self.k
        n, r, got = self.steps[i]
        k.check(n + ': applied to the result of the step before', getattr(r, 'what', None) == on)
        for q in sorted(options):
            if isinstance(options[q], (str, dict, type(None), bool)) or hasattr(options[q], 'option'):
                k.check('%s: %s' % (n, q), got.get(q) is options[q] or got.get(q) == options[q])
            else:
                k.same('%s: %s' % (n, q), got.get(q), options[q])
