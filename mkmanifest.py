#!/usr/bin/env python3
# Regenerates MANIFEST.json from the list of harness packages.
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
na = json.load(open(os.path.join(here, 'not_applicable.json')))
notes = json.load(open(os.path.join(here, 'level_notes.json')))
checks = []
napp = []
for p in props:
    i = p['id']
    if os.path.isdir(os.path.join(here, 'harness', i.lower())):
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'concolic symbolic execution of the Go SSA of the real code, every branch, assertion and panic condition decided by z3 over symbolic inputs within stated bounds; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': notes.get(i, 'Bounded: holds for every input within the bounds of each harness reported as exhausted, and for every input on the explored paths of a time-limited one (see evidence). Trusts the SSA translator (cross-validated against native runs of the same paths) and z3.'),
        })
    else:
        napp.append({'property': i, 'reason': na.get(i, 'no harness yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash check.sh setup',
    'hooks': {'guard': 'none (harnesses enter through go build -overlay; /repo carries no hooks)', 'enable': 'go build -overlay', 'source_commits': []},
    'checks': checks,
    'not_applicable': napp,
    'notes': 'See DESIGN.md. One engine (engine/), one harness package per property (harness/cNN), bounds in the harness comments and DESIGN.md.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
