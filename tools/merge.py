#!/usr/bin/env python3
"""merge.py <evidence> <evidence of the release pass>: adds what the release pass covered to the evidence."""
import json,os,sys
a,b=sys.argv[1:]
e=json.load(open(a))
if os.path.exists(b):
    r=json.load(open(b)); c=r["coverage"]
    e["coverage"]["release_build"]={k:c[k] for k in ("states","transitions","traces_validated_against_impl","evaluations","items","environment_choices","capped","exhaustive","spaces") if k in c}
    e["coverage"]["release_build"]["wall_s"]=r["wall_s"]
    e["violations"]+=r["violations"]; e["wall_s"]+=r["wall_s"]
    if r["violations"]: e["coverage"]["exhaustive"]=False
else:
    e["coverage"]["release_build"]={"exhaustive":False}; e["coverage"]["exhaustive"]=False
json.dump(e,open(a,"w"))
