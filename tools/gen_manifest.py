#!/usr/bin/env python3
# writes MANIFEST.json from checks.py and properties.jsonl
import json, sys; sys.path.insert(0, '/verif')
import checks
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 kvrun.py --setup', checks=[], not_applicable=[])
for i in ids:
    p = checks.PROPS.get(i)
    if p:
        m['checks'].append(dict(property=i, quick_cmd='python3 kvrun.py %s --tier quick' % i, thorough_cmd='python3 kvrun.py %s --tier thorough' % i, technique=p.get('technique', checks.TECHNIQUE), level=p['level'], level_note=p['note']))
    else: m['not_applicable'].append(dict(property=i, reason=checks.NA.get(i, 'no check is registered for this property yet')))
m['notes'] = checks.NOTES
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
