#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/ and tools/catches.txt.
import json,os,re
c=dict(l.rstrip('\n').split(' ',1) for l in open('/verif/tools/catches.txt'))
rows=['| | property | breaks | needs | caught by |','|-|-|-|-|-|']
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(i,'not run')} |")
s=open('/verif/DESIGN.md').read()
a='<!-- planted bugs -->\n'; b='<!-- end of planted bugs -->\n'
i,j=s.index(a)+len(a),s.index(b)
open('/verif/DESIGN.md','w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])
