#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json, na.json and properties.jsonl."""
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
cs=json.load(open('checks.json')); na=json.load(open('na.json'))
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
claimed=[c['property'] for c in cs]
assert all(c in props for c in claimed)
missing=[p for p in props if p not in claimed]
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"none (no hooks in /repo: the checks read /repo's source through go/ssa and in-package tests through go test -overlay)","enable":"nothing to enable","source_commits":[]},
 "checks":[{"property":c['property'],"quick_cmd":"bash run.sh %s quick"%c['property'],"thorough_cmd":"bash run.sh %s thorough"%c['property'],
   "evidence_file":"evidence/%s.json"%c['property'],"technique":c['technique'],"level":c['level'],"level_note":c['note']} for c in cs],
 "not_applicable":[{"property":p,"reason":na.get(p,"check not built yet")} for p in missing],
 "notes":"Contracts in contracts/*.vc; generator in vc/; see DESIGN.md. known_findings.json lists recorded and fixed defects."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
