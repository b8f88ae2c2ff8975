#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md.
import json,os
M="<!-- table: tools/seedtable.py -->\n"
p="/verif/DESIGN.md"; s=open(p).read(); s=s[:s.index(M)+len(M)]
s+="| planted bug | property and check that catches it | needs |\n|---|---|---|\n"
L=[]
for d in os.listdir("/verif/seeded"):
    m=json.load(open(f"/verif/seeded/{d}/meta.json")); L.append((m["property"],d,m["needs"]))
for a,d,n in sorted(L): s+=f"| {d} | {a} | {n} |\n"
open(p,"w").write(s)
