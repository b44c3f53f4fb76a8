#!/usr/bin/env python3
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open(sys.argv[1]))
p=set(t['passed']); st=b['stable']; st=st if isinstance(st,list) else list(st)
m=[x for x in st if x not in p]
print('stable',len(st),'missing',m); sys.exit(bool(m))
