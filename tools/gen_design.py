#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md: design_head.md, a section per property, design_tail.md and the table of planted bugs."""
import json, os, glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P={p['id']:p for p in map(json.loads,open(V+'/properties.jsonl'))}
H=json.load(open(V+'/tools/design_props.json'))
out=open(V+'/tools/design_head.md').read()
for i,p in P.items():
    h=H[i]
    out+=f"### {i} {p['title']}\n*Method:* {h['m']}\n\n*Oracle:* {h['o']}\n\n*Bounds:* {h['b']}\n\n*Beyond the tests because:* {h['w']}\n\n"
out+=open(V+'/tools/design_tail.md').read()
R=json.load(open(V+'/tools/seed_results.json')) if os.path.exists(V+'/tools/seed_results.json') else {}
out+="| planted bug | property | needs | caught by its check |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); s=os.path.basename(os.path.dirname(d))
    out+=f"| {s} | {m['property']} | {m['needs']} | {R.get(s,'not run yet')} |\n"
open(V+'/DESIGN.md','w').write(out)
