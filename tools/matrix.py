#!/usr/bin/env python3
# Rewrites the planted-bug matrix at the end of DESIGN.md from tools/plant_results.json (developer tool, no check uses it).
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r=json.load(open(V+'/tools/plant_results.json')); d=open(V+'/DESIGN.md').read()
mark='<!-- plant matrix -->'
i=d.find(mark)
head=d if i<0 else d[:i]
out=[mark,'## Planted bugs and what catches them','','| plant | property | what it needs | caught by its own check |','|---|---|---|---|']
for k in sorted(r):
    m=V+'/seeded/%s/meta.json'%k
    if not os.path.exists(m): continue
    m=json.load(open(m)); x=r[k]
    res=x if isinstance(x,str) else x.get('result',x)
    out.append('| %s | %s | %s | %s |'%(k,m['property'],m['needs'].replace('|','/'),res))
open(V+'/DESIGN.md','w').write(head.rstrip()+'\n\n'+'\n'.join(out)+'\n')
