SEED = dict(property='P32', edits=[('pyHalo/PresetModels/cdm.py',
 "        if log10_sigma_sub is not None:\n            kwargs_subhalos['sigma_sub'] = 10 ** log10_sigma_sub\n        else:\n            kwargs_subhalos['sigma_sub'] = sigma_sub\n    kwargs_los = {",
 "        if log10_sigma_sub:\n            kwargs_subhalos['sigma_sub'] = 10 ** log10_sigma_sub\n        else:\n            kwargs_subhalos['sigma_sub'] = sigma_sub\n    kwargs_los = {")],
 needs='a logarithmic amplitude of exactly 0 (one subhalo per kpc^2 at the pivot)',
 breaks='the documented precedence: the plain amplitude is used although the logarithmic one was given')
DEMO = '''
import pyHalo.pyhalo as p
import pyHalo.PresetModels.cdm as m
got = []


class Done(Exception):
    pass


def render(self, models, classes, kwargs, *args, **kw):
    got.append(kwargs[0]['sigma_sub'])
    raise Done()
p.pyHalo.render = render
m.pyHalo.render = render
for v in (-1.0, 0.0, 1.0):
    try:
        m.CDM(0.5, 2.0, sigma_sub=0.02, log10_sigma_sub=v, truncation_model_subhalos='TRUNCATION_ROCHE', infall_redshift_model='DIRECT_INFALL')
    except Done:
        pass
assert [round(g, 6) for g in got] == [0.1, 1.0, 10.0], got
'''
