#!/usr/bin/env python3
"""setprop.py ID field text : change a top-level text field of a property."""
import json, sys
pid, f, t = sys.argv[1:4]
ls=[json.loads(l) for l in open('/verif/properties.jsonl')]
for p in ls:
    if p["id"]==pid: p[f]=t
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in ls))
