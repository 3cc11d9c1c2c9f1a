#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the checks present.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/levels.json')) if os.path.exists(V + '/tools/levels.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/checks/{i}.cc'):
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
            evidence_file=f'evidence/{i}.json',
            technique=n.get('technique', 'property-based testing: generated cases against a reference model, shrinking to a replay file'),
            level='exploration',
            level_note=n.get('note', 'Held on every generated case of the run; sampling, not proof. Trusts the reference model in the check, the compiler and the sanitizer runtime.')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='Every check builds /repo/src (its own source list) plus one driver into /verif/build and runs it; see DESIGN.md. No hooks are needed in /repo.'),
    open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
