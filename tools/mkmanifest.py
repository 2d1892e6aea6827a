import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = {}
exec(open('/verif/tools/levels.py').read())
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       technique=TECH.get(i, TECH['*']), level=LEVEL.get(i, 'proof'), level_note=NOTE.get(i, NOTE.get('*'))))
json.dump(dict(version=1, setup_cmd='python3 tools/selfcheck.py', hooks=dict(guard='none', enable='no hooks: /repo carries only fix commits', source_commits=[]), checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes=''), open('/verif/MANIFEST.json', 'w'), indent=1)
