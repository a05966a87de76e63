#!/usr/bin/env python3
import json, subprocess
CL = json.load(open('/verif/tools/claims.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks: every check uses public items of /repo's crates (or includes their source files) built from the working tree","source_commits":[]},
   "checks":[],"not_applicable":[],"notes":"TLA+/TLC specifications in spec/, driver in checks/, replay harnesses in harness/."}
for p in props:
    c=CL.get(p["id"])
    if c and "na" not in c:
        m["checks"].append(dict(property=p["id"],quick_cmd="python3 checks/run.py %s"%p["id"],thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s"%p["id"],
            evidence_file="evidence/%s.json"%p["id"],technique=c["technique"],level=c.get("level","model_checking"),level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"],reason=(c or {}).get("na","not claimed yet: specification under construction")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
try:
    import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(m["checks"]),"claimed")
