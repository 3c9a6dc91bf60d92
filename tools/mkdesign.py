#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, claims.py, the harnesses, properties.jsonl, seeded/ and design_tail.md."""
import json, os, re
V = '/verif/'
N, C = [], {}
def c(p, b, l): C[p] = (b, l)
exec(open(V + 'tools/claims.py').read(), {'N': N, 'c': c})
info = json.load(open(V + 'tools/design_info.json'))
har = {}
for f in sorted(os.listdir(V + 'harness')):
    m = re.fullmatch(r'p(\d\d)\.go', f)
    if m:
        har['P' + m.group(1)] = re.findall(r'^func (P\d\d_\w+)\(\)', open(V + 'harness/' + f).read(), re.M)
out = open(V + 'tools/design_head.md').read()
for l in open(V + 'properties.jsonl'):
    d = json.loads(l)
    p = d['id']
    out += f"### {p} {d['title']}\n\n"
    if p not in C:
        out += 'Not applicable: ' + [n for n in N if n['property'] == p][0]['reason'] + '\n\n'
        continue
    b, lim = C[p]
    out += f"- Oracle: {info['oracle'][p]}.\n- Within: {b}\n"
    if lim:
        out += f"- Outside / assumed: {lim}\n"
    out += f"- Harnesses: {', '.join(h[4:] for h in har[p])}; about {info['seconds'][p]} s.\n\n"
t = '| id | property | needs | note |\n|---|---|---|---|\n'
for i in sorted(os.listdir(V + 'seeded')):
    m = json.load(open(V + 'seeded/' + i + '/meta.json'))
    t += f"| {i} | {m['property']} | {m['needs']} | {info['seeded'].get(i, '')} |\n"
out += open(V + 'tools/design_tail.md').read().replace('SEEDED\n', t).replace('REFACTOR\n', ''.join('- ' + x + '\n' for x in info['refactor']))
open(V + 'DESIGN.md', 'w').write(out)
