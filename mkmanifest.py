"""Write MANIFEST.json from specs/meta.json (claimed properties, notes) - run by hand after changing the meta data."""
import json
V = '/verif'
meta = json.load(open(V + '/specs/meta.json'))
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    m = meta.get(p['id'], {})
    if m.get('claimed'):
        checks.append(dict(property=p['id'], technique=m['technique'], level=m.get('level', 'proof'), level_note=m['note'],
                           quick_cmd='VERIF_TIER=quick python3-vt check.py %s' % p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p['id']))
    else:
        na.append(dict(property=p['id'], reason=m.get('reason', 'check under construction')))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
old = json.load(open(V + '/MANIFEST.json'))
for k in old:
    if k not in man:
        man[k] = old[k]
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
