SEED = dict(property='P21', edits=[('pyHalo/mass_function_models.py',
 "        if 'c_wdm' in kwargs_model.keys():\n",
 "        if kwargs_model.get('c_wdm'):\n")],
 needs='a caller that gives c_wdm=0.0 (no suppression) together with the transfer function slope',
 breaks='a coefficient the model derives itself is accepted and silently replaced')
DEMO = '''
from pyHalo.mass_function_models import preset_mass_function_models as p
for v in (-1.0, 0.0, None):
    try:
        p('STUCKER', {'dlogT_dlogk': 1.5, 'c_wdm': v})
    except Exception:
        continue
    raise SystemExit('accepted %r' % v)
'''
