#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new[,count])], DEMO (main body), PRELUDE(optional)."""
import json, os, subprocess, sys
ns = {}; exec(open(sys.argv[1]).read(), ns)
for S in ns["SEEDS"]:
    d = "/verif/seeded/" + S["id"]; os.makedirs(d, exist_ok=True)
    R = "/tmp/seed/repo"
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "crates"], check=True)
    for f, old, new in S["edits"]:
        p = os.path.join(R, f); t = open(p).read()
        assert t.count(old) == 1, (S["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "crates"], check=True)
    pre = open("/verif/tools/demo/prelude.rs").read() if S.get("prelude", True) else ""
    open(d + "/demo.rs", "w").write(pre + S["demo"])
    sh = S.get("sh") or open("/verif/tools/demo/demo.sh").read()
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=S["prop"], needs=S["needs"], what_it_breaks=S["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("seed", S["id"])
