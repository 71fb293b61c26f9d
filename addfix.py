#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: record a repaired defect."""
import json,sys
f='/verif/known_findings.json'
d=json.load(open(f))
p,c,w=sys.argv[1:4]
d["findings"].append({"property":p,"status":"fixed","harness":"","match":"","commit":c,"what":w,"line":f"fixed: property={p} {c} {w}"})
open(f,'w').write('{"findings": [\n '+',\n '.join(json.dumps(x,ensure_ascii=False) for x in d['findings'])+'\n]}\n')
