#!/usr/bin/env python3
"""Writes DESIGN.md (needs evidence/*.json of a recent run for the rule counts)."""
import json, os, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tool')
from props import PROPS, NA
out = [open(V + '/tool/design_head.md').read().rstrip(), '']
how = {}
p = V + '/tool/design_how.json'
if os.path.exists(p): how = json.load(open(p))
seeded = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    seeded[d] = m
out.append('## Properties\n')
for q in PROPS:
    ev = json.load(open(f"{V}/evidence/{q['id']}.json"))
    cv = ev['coverage']
    out.append(f"### {q['id']} — {q['title']}\n")
    out.append(q['statement'] + '\n')
    out.append(f"*Quantifies over* {q['qtext']}. *Tests cannot settle it:* {q['why']}\n")
    mod = {}
    exec(compile('\n'.join(l for l in open(f"{V}/rules/{q['id']}.py").read().split('\n') if l.startswith('MODULES')), 'm', 'exec'), mod)
    out.append(f"*Decided by* {q['tech']} of `rules/{q['id']}.py` over modules {', '.join(mod.get('MODULES', []))}: {cv['obligations']} obligations, "
               f"{cv['functions_analysed']} functions, {cv['abstract_paths']} abstract paths. Anchors: " + ', '.join('`' + f.replace('src/PLASMA/', '') + '`' for f in q['files']) + '.\n')
    for n, r in cv['rules'].items(): out.append(f"* **{n}** ({r['instances']}): {r['text']}")
    out.append('')
    if q['id'] in how: out.append(how[q['id']] + '\n')
out.append('## Not applicable\n')
for q in NA: out.append(f"* **{q['id']} {q['title']}** — {q['statement']} *Reason:* {q['reason']}")
out.append('\n## Defects found in nasa/europa\n')
out.append('Repaired by `fix:` commits (each a separate commit in /repo; the stable tests pass) or recorded; `known-findings.txt` is the machine-readable list.\n')
for l in open(V + '/known-findings.txt'):
    l = l.strip()
    if l and l[0] != '#': out.append('* ' + l)
out.append('\n## Planted bugs (`seeded/`)\n')
out.append('| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for d, m in seeded.items():
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = V + '/tool/design_tail.md'
if os.path.exists(p): out += ['', open(p).read().rstrip()]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)))
