#!/usr/bin/env python3
"""tables.py: rewrite the generated tables at the end of DESIGN.md."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
mark = '<!-- generated by tools/tables.py -->\n'
s = s.split(mark)[0].rstrip() + '\n\n' + mark
fs = json.load(open(os.path.join(here, 'known_findings.json')))['findings']
s += '\n## 5. Findings\n\nKnown findings (recorded, not repaired; the checks print KNOWN-FINDING for them):\n\n'
for e in fs:
    if e['status'] != 'fixed':
        s += f"* {e['property']} `{e['harness']}`: {e['what']}\n"
n = sum(e['status'] == 'fixed' for e in fs)
s += f'\nDefects found by the checks and repaired with "fix:" commits ({n}):\n\n'
for e in sorted((e for e in fs if e['status'] == 'fixed'), key=lambda e: e['property']):
    s += f"* {e['property']} `{e['commit']}` {e['what']}\n"
s += '\n## 6. Planted bugs\n\nEach was confirmed to build, to pass the repository\'s tests and to fail its\ndemonstration; "caught by" is the quick check of its property.\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n'
res = {}
p = os.path.join(here, 'tools', 'caught.json')
if os.path.exists(p):
    res = json.load(open(p))
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    e = json.load(open(m))
    s += f"| {i} | {e['property']} | {e['what_it_breaks']} (needs: {e['needs']}) | {res.get(i, '?')} |\n"
open(f, 'w').write(s)
