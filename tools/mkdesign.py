import json,os,glob
exec(open('/verif/tools/mkmanifest.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
o=[]
o.append('## How each property is decided\n')
for p in props:
    i=p['id']
    o.append(f"**{i} {p['title']}.** "+(C[i] if i in C else "Not claimed: "+NA[i]+".")+"\n")
r={}
try: r=json.load(open('/verif/tools/seed_results.json'))
except FileNotFoundError: pass
s=['## Planted bugs (`seeded/`) and what catches them\n','| bug | property | what it breaks | check says |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    s.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {r.get(n,'not run (property not claimed yet)')} |")
t=open('/verif/tools/design.md.in').read().replace('@PROPS@','\n'.join(o)).replace('@SEEDS@','\n'.join(s))
open('/verif/DESIGN.md','w').write(t)
