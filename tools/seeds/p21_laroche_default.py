SEED = dict(property='P21', edits=[('pyHalo/concentration_models.py',
 "        kwargs_model_return['c_power_inner'] = 1.62\n",
 "        kwargs_model_return.setdefault('c_power_inner', 1.62)\n")],
 needs='a caller that gives c_power_inner itself with the published model',
 breaks='the published coefficient no longer takes precedence over the caller')
DEMO = '''
from pyHalo.concentration_models import preset_concentration_models as p
assert p('LAROCHE2022', {'cosmo': 1})[1]['c_power_inner'] == 1.62
assert p('LAROCHE2022', {'cosmo': 1, 'c_power_inner': 1.0})[1]['c_power_inner'] == 1.62
'''
