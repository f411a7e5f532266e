import json,os
V='/verif'
plan=json.load(open(V+'/plan.json'))
props={}
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
shape=json.load(open(V+'/specs/shape.json'))
seeds=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json')); seeds.append((m['property'],d,m['what_it_breaks'],m['needs']))
out=open(V+'/tools/DESIGN.head.md').read()
# contracts per unit
def fns(u): return [l.split()[1] for l in open(f'{V}/specs/{u}.vs') if l.startswith('@fn ')]
out=out.replace('@@UNITS@@', '| unit | properties | functions under contract |\n|---|---|---|\n'+'\n'.join(f"| `{u}` | {', '.join(v['properties'])} | {', '.join('`'+f+'`' for f in fns(u))} |" for u,v in plan['units'].items()))
ps=[]
for k,p in plan['properties'].items():
    t=props[k]
    s=f"### {k} {t['title']}\n\n{t['statement']}\n\n"
    s+=f"- Proved ({', '.join('`'+u+'`' for u in p['units'])}): {p['proved']}\n"
    if p.get('theorems'): s+=f"- Lemmas over the contracts: {', '.join('`'+x+'`' for x in p['theorems'])}\n"
    s+=f"- Trusted: {p['trusted']}\n"
    if p.get('bounded') and not p['bounded'].startswith('nothing'): s+=f"- Not under contract: {p['bounded']}\n"
    if p.get('oracle'): s+=f"- Oracle of the search for failing inputs: {p['oracle']}\n"
    ps.append(s)
out=out.replace('@@PROPERTIES@@','\n'.join(ps))
out=out.replace('@@SEEDED@@','\n'.join(f"| {a} | `{b}` | {c} | {n} |" for a,b,c,n in sorted(seeds)))
out=out.replace('@@NSEED@@',str(len(seeds)))
fx=[l[len('fixed: property='):].strip().split(' ',2) for l in open(V+'/KNOWN_FINDINGS') if l.startswith('fixed:')]
out=out.replace('@@FIXED@@','\n'.join(f"| {a} | {b} | {c} |" for a,b,c in fx))
out=out.replace('@@NFIXED@@',str(len(fx)))
open(V+'/DESIGN.md','w').write(out)
