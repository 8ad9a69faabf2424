#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between markers) from properties.jsonl,
tools/decide.json (how each property is decided) and tools/seedresults.json."""
import json, re, os
V="/verif"
s=open(V+"/DESIGN.md").read()
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
dec=json.load(open(V+"/tools/decide.json"))
notes=json.load(open(V+"/tools/notes.json"))
out=["## Properties","","Where a property lists contracts, its obligations are those of the named contract functions (all inputs, all loop iterations, no bound).",""]
for p in props:
    i=p["id"]
    out.append("- **%s** %s." % (i,p["title"]))
    if i in notes["not_applicable"]: out.append("  Not applicable: see below.")
    else: out.append("  "+dec.get(i,"Not claimed yet."))
gen="<!-- props -->\n"+"\n".join(out)+"\n<!-- /props -->"
sd=["## Planted bugs","","Each is in `seeded/`; outcome of the quick check of its property (tools/seedcheck.sh).","","| bug | property | needs | check |","|---|---|---|---|"]
rs=json.load(open(V+"/tools/seedresults.json")) if os.path.exists(V+"/tools/seedresults.json") else {}
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(V+"/seeded/%s/meta.json"%d))
    sd.append("| %s | %s | %s | %s |"%(d,m["property"],m["needs"],rs.get(d,"?")))
seeds="<!-- seeds -->\n"+"\n".join(sd)+"\n<!-- /seeds -->"
s=s.replace("@@PROPS@@","<!-- props -->\n<!-- /props -->").replace("@@SEEDS@@","<!-- seeds -->\n<!-- /seeds -->")
s=re.sub(r"<!-- props -->.*<!-- /props -->",lambda m:gen,s,flags=re.S)
s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:seeds,s,flags=re.S)
open(V+"/DESIGN.md","w").write(s)
