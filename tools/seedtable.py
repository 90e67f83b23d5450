#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=V+'/DESIGN.md';s=open(p).read()
a=s.index('<!-- table');a=s.index('\n',a)+1;e=s.index('<!-- end')
rows=[]
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append((m['property'],os.path.basename(d),m['what_it_breaks'].split('. ')[0][:120]))
rows.sort()
s=s[:a]+'| bug | caught by | what it breaks |\n|---|---|---|\n'+''.join(f'| {b} | {p} | {c} |\n' for p,b,c in rows)+s[e:]
open(p,'w').write(s)
