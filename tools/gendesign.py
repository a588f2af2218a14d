#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, props_meta.py, known-findings.json and tools/seed_status.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_meta import PROPS, NA  # noqa
ORA = {}
exec(open(os.path.join(V, 'tools/design_oracles.py')).read())
head = open(os.path.join(V, 'tools/design_head.md')).read()
out = [head.rstrip() + '\n\n## Properties\n\nGenerated from `props_meta.py` (the statement of each property is in `properties.jsonl`).\n']
ev = {}
for pid in PROPS:
    try:
        ev[pid] = json.load(open(os.path.join(V, 'tools/cost.json')))[pid]
    except Exception:
        pass
for pid, p in PROPS.items():
    if pid in NA:
        continue
    out.append(f'### {pid} — {p["title"]}\n')
    out.append(f'*Generated*: {p["rule"]}\n')
    out.append(f'*Oracle*: {ORA.get(pid, "MPFR at three times the working precision, applied to the exact stored operands.")}\n')
    dg = ', '.join(f'{d} digits ({"/".join(b)})' for d, s, b in p.get('digits', [])) or 'none besides 101 digits'
    dt = ', '.join(f'{d} ({"/".join(b)})' for d, s, b in p.get('digits_thorough', [])) or 'none'
    out.append(f'*Configurations*: back ends {"/".join(p.get("backends", ["efx", "gmp", "mpfr"]))}; further digit settings {dg}; thorough adds {dt}'
               + ('; sanitizer builds (ASan+UBSan) in thorough' if p.get('asan', True) else '') + (' and in quick' if p.get('asan_quick') else '') + '.\n')
    if pid in ev:
        out.append(f'*Cost (quick, 8 cores)*: {ev[pid]}.\n')
    out.append(f'*Why beyond the tests*: {p["why"]}\n')
if NA:
    out.append('## Not applicable\n')
    for k, v in NA.items():
        out.append(f'- {k}: {v}\n')
k = json.load(open(os.path.join(V, 'known-findings.json')))
out.append('## Defects found by the checks\n\nEvery one was reproduced on the original code by a generated case; each repair is one `fix:` commit in /repo, after which the 225 stable tests still pass.\n')
for f in k['fixed']:
    out.append('- ' + f + '\n')
out.append('\n### Known findings (recorded, not repaired)\n')
if not k['findings']:
    out.append('None open: every genuine defect the claimed properties met was small enough to repair.\n')
for f in k['findings']:
    out.append(f'- {f["property"]} `{f["sig"]}`: {f["what"]}\n')
try:
    s = json.load(open(os.path.join(V, 'tools/seed_status.json')))
    out.append('## Planted bugs and the checks that catch them\n\n| planted bug | property | what it needs | caught by its quick check |\n|---|---|---|---|\n')
    rows = []
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
        rows.append(f'| {d} | {m["property"]} | {m["needs"]} | {s.get(d, "not run yet")} |\n')
    out.append(''.join(rows))
except FileNotFoundError:
    pass
txt = '\n'.join(x.rstrip('\n') if x.startswith('- ') or x.startswith('|') else x for x in out)
open(os.path.join(V, 'DESIGN.md'), 'w').write(txt.rstrip() + '\n')
