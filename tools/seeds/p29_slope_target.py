SEED = dict(property='P29', edits=[('pyHalo/realization_extensions.py',
 """                        'm_target_R': scale_match_r * mass_R,
                        'r_match_kpc': r_match_kpc,
                        'Rs_inner_kpc': r_match_kpc,
                        'sidm_timescale': t_c,
""", """                        'm_target_R': min(scale_match_r * mass_R, mass_R200),
                        'r_match_kpc': r_match_kpc,
                        'Rs_inner_kpc': r_match_kpc,
                        'sidm_timescale': t_c,
""")],
 needs='a heavily truncated halo converted with a collapse time scale, whose rescaled inner mass exceeds the mass inside r200',
 breaks='the inner mass of the collapsed halo is capped at the mass inside r200')
DEMO = '''
import numpy as np
import pyHalo.realization_extensions as re


class LC(object):
    z_source = 2.0

    class cosmo(object):
        halo_age = staticmethod(lambda z, zform=10: 8.0)


class H(object):
    mdef, mass, x, y, r3d, z, is_subhalo, lens_cosmo, unique_tag = 'TNFW', 1e8, 0., 0., None, 0.5, False, LC, 0.3
    profile_args, c, nfw_params = (10., 0.2), 10., (1e7, 1.0, 10.0)
    log_derivative_inverse = staticmethod(lambda s, rs, rt: 0.5)
    mass_3d = staticmethod(lambda r: {0.5: 8e7, 10.0: 1e8}.get(r))
e = re.RealizationExtensions.__new__(re.RealizationExtensions)
h = e.toSIDM_single_halo(H(), 1.0, 1.0, halo_profile='CC_COMPOSITE', gamma_inner=3.0, scale_match_r=1.6, log_slope_match=-2.0,
                         t_over_tc_collapse_threshold=0.1, collapse_probability=2.0)
assert abs(h._args['m_target_R'] / 1.28e8 - 1) < 1e-12, h._args
'''
