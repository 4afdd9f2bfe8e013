"""Fill the generated sections of DESIGN.md from DESIGN.in.md, spec, known findings and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import spec
out = []
for p, x in spec.ITEMS:
    out.append(f'### {p["id"]} {p["title"]}\n*Explored:* {p["quantifier"]["text"]}.\n*Oracle:* {x["oracle"]}.\n*Why tests cannot:* {p["why_tests_cant"]}.' + (f'\n{x["note"]}' if x['note'] else ''))
out.append('### Not applicable\n' + '\n'.join(f'- **{p["id"]} {p["title"]}**: {r}' for p, r in spec.NA))
k = json.load(open(V + '/known_findings.json'))['findings']
fx = '\n'.join(f'- {e["entry"]}' for e in k if e['status'] == 'fixed') + '\n\nRecorded, not repaired:\n' + ('\n'.join(f'- {e["id"]} ({e["property"]}): {e["what"]}' for e in k if e['status'] == 'known') or '- none')
sd = []
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    f = f'{V}/seeded/{d}/meta.json'
    if os.path.exists(f):
        m = json.load(open(f))
        sd.append(f'- `{d}` ({m["property"]}; caught by {m.get("caught_by", "?")}): {m["what_it_breaks"]} *Needs:* {m["needs"]}')
s = open(V + '/tools/DESIGN.in.md').read()
open(V + '/DESIGN.md', 'w').write(s.replace('@@PROPS@@', '\n\n'.join(out)).replace('@@FIXED@@', fx).replace('@@SEEDED@@', '\n'.join(sd) or '- none yet'))
