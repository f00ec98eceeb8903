"""writes MANIFEST.json from properties.jsonl and the checks which exist"""
import json, os, importlib, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
TECH = {}
exec(open(R + '/tools/techniques.py').read())
checks, na = [], []
for i in ids:
    if os.path.exists('%s/checks/%s.py' % (R, i.lower())):
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': t, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
