SEED = dict(property='P33', edits=[('pyHalo/PresetModels/sidm.py',
 '    log10_mass_ranges = [[log_mlow, 8.0], [8.0, log_mhigh]]\n',
 '    log10_mass_ranges = [[log_mlow, 8.0], [8.0, min(log_mhigh, 10.0)]]\n')],
 needs='a maximum halo mass above the default 10^10',
 breaks='halos above 10^10 are in no mass bin and stay collisionless')
DEMO = '''
import pyHalo.PresetModels.sidm as s
got = []
s.SIDM_parametric = lambda *args, **kw: got.append(args[2])
s.SIDM_parametric_fixedbins(0.5, 2.0, 1.0, 1.5)
s.SIDM_parametric_fixedbins(0.5, 2.0, 1.0, 1.5, log_mlow=6.5, log_mhigh=10.7)
assert got == [[[6.0, 8.0], [8.0, 10.0]], [[6.5, 8.0], [8.0, 10.7]]], got
'''
