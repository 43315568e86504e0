#!/usr/bin/env python3
# writes DESIGN.md: hand-written parts + the rules each check applies (from the evidence of the last run)
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=open(V+'/tools/design_head.md').read()
titles={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
for i,t in titles.items():
    f=f'{V}/evidence/{i}.json'
    if not os.path.exists(f): continue
    c=json.load(open(f))['coverage']
    out+=f"\n### {i} {t}\n\n"
    for r in c['rules']:
        n,_,x=r.partition(': '); out+=f"* **{n}**: {x}\n"
    if c.get('bounded'): out+="* explorations cut at the path limit (see evidence): "+', '.join(sorted(x.split()[0] if 0 else x for x in c['bounded']))[:300]+"\n"
out+=open(V+'/tools/design_extra.md').read() if os.path.exists(V+'/tools/design_extra.md') else ''
out+=open(V+'/tools/design_tail.md').read()
open(V+'/DESIGN.md','w').write(out)
