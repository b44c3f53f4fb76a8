#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json,os,re
rows=[]
for n in os.listdir('/verif/seeded'):
    m=json.load(open(f'/verif/seeded/{n}/meta.json'))
    rows.append((m['property'],n,m['needs'],m['what_it_breaks']))
rows.sort()
t='| caught by | planted bug | needs | breaks |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%(a,b,c.replace('|','/'),d.replace('|','/')) for a,b,c,d in rows)
s=open('/verif/DESIGN.md').read()
if '@SEEDS@' in s: s=s.replace('@SEEDS@','<!-- seeds -->\n<!-- /seeds -->')
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+t+'<!-- /seeds -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
print(len(rows))
