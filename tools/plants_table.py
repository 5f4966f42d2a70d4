#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json,glob,os
by={}
missed=set(l.strip() for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'missed_first.txt')) if l.strip())
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../seeded/*/meta.json'))):
    d=json.load(open(f)); n=os.path.basename(os.path.dirname(f)); by.setdefault(d['property'],[]).append('`%s`%s: %s'%(n,' (missed at first)' if n in missed else '',d['needs'].replace('|','/')))

import re,sys
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../DESIGN.md'); s=open(D).read()
t='\n'.join('| %s | %s |'%(p,'<br>'.join(by[p])) for p in sorted(by,key=lambda x:('TVECRP'.index(x[0]),x)))
s=re.sub(r'(\| property \| planted \|\n\|---\|---\|\n)(.*?)\n(?=\n)',lambda m:m.group(1)+t+'\n',s,flags=re.S)
open(D,'w').write(s)
