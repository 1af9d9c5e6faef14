"""Writes MANIFEST.json from the registry (run by hand)."""
import json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
from engine import registry
props = [json.loads(l) for l in (HERE / 'properties.jsonl').read_text().splitlines()]
na = registry.NOT_APPLICABLE
checks = []
out_na = []
for p in props:
    i = p['id']
    if i in registry.PROPERTIES:
        s = registry.PROPERTIES[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': s['technique'], 'level': s['level'],
                       'level_note': s['level_note']})
    else:
        out_na.append({'property': i, 'reason': na[i]})
(HERE / 'MANIFEST.json').write_text(json.dumps({'version': 1, 'setup_cmd': 'python3 -m py_compile check.py',
                                                'checks': checks, 'not_applicable': out_na}, indent=1) + '\n')
print(len(checks), 'checks', len(out_na), 'n/a')
