#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (after the marker)."""
import glob,json,os,re
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
M="<!-- generated by tools/gen_design.py -->\n"
s=open(V+"/DESIGN.md").read().split(M)[0]
o=["## 7. Defects found in the tree and repaired","",
"All were reported by the checks on the original tree (or by writing the oracle), shown on the real code, and repaired in a `fix:` commit. There are no",
"unrepaired findings.",""]
for f in json.load(open(V+"/known_findings.json"))["fixed"]:
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",f); o.append("* %s `%s` %s"%(m[1],m[2],m[3]))
o+=["","## 8. Planted bugs (`seeded/`)","","Each was written from a property's text and the code, passes the 535 tests, and has a demonstration. `caught by` is the property's own quick check unless noted.","",
"| id | property | needs | caught by |","|---|---|---|---|"]
C=json.load(open(V+"/tools/catches.json")) if os.path.exists(V+"/tools/catches.json") else {}
for d in sorted(glob.glob(V+"/seeded/*")):
    m=json.load(open(d+"/meta.json")); i=os.path.basename(d); o.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"],C.get(i,m["property"])))
open(V+"/DESIGN.md","w").write(s+M+"\n".join(o)+"\n")
