"""writes MANIFEST.json"""
import json
L = json.load(open('/verif/tools/levels.json'))
checks = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    if p in L['na']:
        continue
    v = L['checks'].get(p, L['default'])
    checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p}', evidence_file=f'evidence/{p}.json',
                       technique=v['technique'], level=v['level'], level_note=v['note']))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q engine replay check.py', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in L['na'].items()], notes=L['notes']), open('/verif/MANIFEST.json', 'w'), indent=1)
