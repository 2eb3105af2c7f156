#!/usr/bin/env python3
"""DESIGN.md = design_head.md + a section per property (rules from their docstrings, notes from properties.py, notes below) + tail"""
import sys, os, json, glob, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from sa.rules import RULES
sys.path.insert(0, ROOT + '/dev')
import mut
man = json.load(open(ROOT + '/MANIFEST.json'))
notes = {c['property']: c['level_note'] for c in man['checks']}
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
na = {x['property']: x['reason'] for x in man['not_applicable']}
common = os.path.commonprefix([n for n in notes.values()])
common = common[:common.rfind('. ') + 2] if '. ' in common else ''
cases = mut.load()
out = [open(ROOT + '/dev/design_head.md').read(), '## Properties\n\n']
if common:
    out.append('For all properties: ' + common.strip() + '\n\n')
for p in props:
    i = p['id']
    out.append(f'### {i} {p["title"]}\n\n')
    if i in na:
        out.append('Not applicable: ' + na[i] + '\n\n')
        continue
    out.append('Rules (all paths of the anchored functions, fixed point):\n\n')
    for r in RULES[i][1]:
        out.append(f'- `{r.__module__.split(".")[-1]}.{r.__name__}`: {(r.__doc__ or "").strip()}\n')
    out.append('\n' + notes[i][len(common):].strip() + '\n')
    c = [x for x in cases if i in x[0].split(',') and x[1] == 1]
    q = [x for x in cases if (x[0] == 'ALL' or i in x[0].split(',')) and x[1] == 0]
    out.append(f'Self-test: {len(c)} breaking edits reported, {len(q)} behaviour-preserving edits quiet (`dev/cases`).\n\n')
out.append(open(ROOT + '/dev/design_tail.md').read())
out.append('\n### Planted bugs (`/verif/seeded`)\n\n| bug | property | needs | caught by (own check and A01, A07, A12, A14 were run; only the own check for b32 on) |\n|---|---|---|---|\n')
res = json.load(open(ROOT + '/dev/seed_results.json')) if os.path.exists(ROOT + '/dev/seed_results.json') else {}
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append(f'| {n} | {m["property"]} | {m["needs"]} | {", ".join(res.get(n, ["?"])) or "none"} |\n')
open(ROOT + '/DESIGN.md', 'w').write(''.join(out))
