#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and seeded-lib/."""
import json, os, re
def rows(d):
    r=[]
    for i in sorted(os.listdir(d)):
        m=os.path.join(d,i,"meta.json")
        if os.path.exists(m):
            j=json.load(open(m)); r.append("| %s | %s | %s | %s |"%(i,j["property"],j["needs"].replace("|","/"),j["what_it_breaks"].replace("|","/")))
    return r
t=["<!-- seeds -->","Every one of them is caught by the quick check of its property, unless the table says otherwise.","",
   "| planted bug | caught by | needs | breaks |","|---|---|---|---|"]+rows("seeded")+["","In the Clara library (`seeded-lib/`):","","| planted bug | caught by | needs | breaks |","|---|---|---|---|"]+rows("seeded-lib")+["<!-- /seeds -->"]
s=open("DESIGN.md").read()
if "@@SEEDS@@" in s: s=s.replace("@@SEEDS@@","\n".join(t))
else: s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:"\n".join(t),s,flags=re.S)
open("DESIGN.md","w").write(s)
