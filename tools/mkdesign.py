import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = open(R+'/tools/design_head.md').read()
lim = open(R+'/tools/design_limits.md').read()
rows = []
for d in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks'][:150]} | {m['needs'][:140]} |")
h = h.replace('@@LIMITS@@', lim.strip())
h = h.replace('@@SEEDS@@', '\n| bug | check | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows))
out = [h.rstrip(), '', '## 8. Contracts (from the evidence of the last run)', '', '| property | contract | status | obligations |', '|---|---|---|---|']
for i in range(1, 33):
    p = f'P{i:02d}'
    try: c = json.load(open(f'{R}/evidence/{p}.json'))['coverage']
    except Exception: continue
    for n, x in c['contracts'].items(): out.append(f"| {p} | {n} | {x['status']} | {x['discharged']}/{x['obligations']} |")
    b = c.get('bounded_stand_ins') or {}
    if b: out.append(f"| {p} | {', '.join(b)} | bounded | - |")
open(R+'/DESIGN.md', 'w').write('\n'.join(out)+'\n')
