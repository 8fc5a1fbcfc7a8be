#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for m in glob.glob(here+"/seeded/*/meta.json"):
    d=json.load(open(m)); rows.append((d["property"],os.path.basename(os.path.dirname(m)),d["what_it_breaks"],d["needs"]))
t="| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"+"".join("| %s | %s quick | %s | %s |\n"%(n,p,nd.replace("|","/"),w.replace("|","/")) for p,n,w,nd in sorted(rows))
p=here+"/DESIGN.md"; s=open(p).read()
if "@@SEEDED@@" in s: s=s.replace("@@SEEDED@@","<!-- seeded -->\n"+t+"<!-- /seeded -->\n")
else: s=re.sub(r"<!-- seeded -->.*?<!-- /seeded -->",lambda m:"<!-- seeded -->\n"+t+"<!-- /seeded -->",s,flags=re.S)
open(p,"w").write(s)
