#!/usr/bin/env python3
"""Self-assessment, not a check: markdown table of the planted bugs.  usage: table.py MATRIX.jsonl (output of mutants.py --patches /verif/seeded)"""
import sys,os,json
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","seeded")
rows={}
for l in open(sys.argv[1]):
    d=json.loads(l); rows[d["name"]]=d
print("| planted bug | breaks | first run of its own check | noticed by as well |\n|---|---|---|---|")
for n in sorted(os.listdir(here)):
    m=json.load(open(f"{here}/{n}/meta.json")); p=m["property"]; by=rows.get(n,{}).get("by",{})
    own=by.get(p); own=str(own[1]) if isinstance(own,list) and len(own)>2 else ("not at a tenth" if own==0 else "?" if own is None else "yes")
    print(f"| {n} | {m['what_it_breaks']} | {own} | {' '.join(k for k,v in by.items() if v and k!=p) or '-'} |")
