"""C15: Projects.tla against discovery, the list of source files, crates and workspaces."""
import concurrent.futures, random
import vt
DIR = {"quote": "it's \"q\"", "uni": "dé→", "dcm": "d.cm", "hid": ".hid"}
FILE = {"quote": "o'q\"\\s.cm", "space": "two words.cm", "dots": "x.y.cm", "txt": "notes.txt", "bak": "main.cm.bak", "CM": "UP.CM", "cm": "cm", "hidcm": ".hid.cm", "ghost": "ghost.cm", "manifest": "cairom.toml"}
NAME = {1: ["app", "my_project", "a-b", "two words", "été", "1", ""], 2: ["zz", "Lib", "src", "o'k"]}
VERSION = {0: "0.1.0", 1: "2.3.4"}
def fname(t): return FILE.get(t, t + ".cm")
def stem(t): return fname(t)[:-3]
def path(d, f=None): return "/".join([DIR.get(x, x) for x in d] + ([fname(f)] if f else []))
def module(m): return "::".join([DIR.get(x, x) for x in m[:-1]] + [stem(m[-1])])
def manifest(rng, m, where):
    if m["k"] == "bad":
        return {"syntax": "name = \n", "noname": 'version = "1"\nentry_point = "main.cm"\n', "noentry": 'name = "x"\n', "type": 'name = 3\nentry_point = "main.cm"\n', "empty": "", "utf8": "bytes", "dir": "dir",
                "twice": 'name = "a"\nname = "b"\nentry_point = "main.cm"\n'}[m["why"]], None
    n = rng.choice(NAME[m["name"]]); e = path(m["entry"][:-1], m["entry"][-1])
    if m["entry"][0] == "src" or rng.random() < 0.3: e = "src/" + e
    elif rng.random() < 0.2 and "\\" not in e: e = "@ROOT@/" + path(where + ["src"]) + "/" + e     # an absolute one
    q = lambda s: "'%s'" % s if "'" not in s and rng.random() < 0.4 else '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
    L = ["name = " + q(n), "entry_point=" + q(e)]
    if m["version"]: L.append('version = "%s"' % VERSION[1])
    rng.shuffle(L)
    if rng.random() < 0.3: L = ["# a comment"] + L + ["", "[extra]", 'name = "no"', "[dependencies]"]
    return ("\r\n" if rng.random() < 0.1 else "\n").join(L) + "\n", (n, e)
def spell(rng, c, loc, cwd):
    "a spelling of a place"
    p = path(loc["d"], loc["f"] or None); base = path(loc["d"]); w = rng.choice(["abs", "abs", "rel", "rel", "dot", "detour", "twice"])
    dirs = [path(d) for d in c["dirs"]]
    slash = "/" if loc["f"] == "" and rng.random() < 0.3 else ""
    if w == "rel" and (p == cwd or p.startswith(cwd + "/") or cwd == ""):
        r = p[len(cwd):].lstrip("/")
        return (rng.choice(["", "./"]) + r if r else rng.choice([".", "./", ""])) + (slash if r else "")
    if w in ("rel", "detour"):
        up = "/".join([".."] * len([x for x in cwd.split("/") if x]))
        if loc["f"] == "ghost": return "@ROOT@/" + p
        if w == "rel": return (up + "/" + p if up else p or ".") + slash
        return "@ROOT@/" + "/".join([x for x in [(lambda d: d + "/" + "/".join([".."] * (d.count("/") + 1)) if d else "")(rng.choice(dirs)), p] if x]) + slash
    if w == "dot": return "@ROOT@/./" + p + slash
    if w == "twice": return "@ROOT@//" + p.replace("/", "//") + slash
    return "@ROOT@/" + p + slash
def check(pid, rep):
    binp = vt.build("front"); T = vt.THOROUGH; run = vt.TlcRun()
    vt.tlc("Projects", "Projects_bfs.cfg", {"MaxSteps": "4" if T else "3"}, run=run, workers=8, timeout=2000)
    vt.tlc("Projects", "Projects_sim.cfg", {}, mode="sim", num=2500 if T else 350, depth=60, run=run, procs=8, timeout=2000)
    rep.add_run(run); rng = random.Random(vt.SEED)
    cases, want = [], []
    for c in run.cases:
        tree = [[path(d), "dir", ""] for d in sorted(c["dirs"], key=lambda d: (len(d), rng.random())) if d]; names = {}; text = {}
        rest = []
        for x in c["man"]:
            b, ne = manifest(rng, x["m"], x["d"]); names[tuple(x["d"])] = ne
            rest.append([path(x["d"], "manifest"), b if b in ("dir", "bytes") else "text", b])
        for f in c["files"]:
            t = "// %s\n" % path(f["d"], f["f"]); rest.append([path(f["d"], f["f"]), f["c"], t]); text[path(f["d"], f["f"])] = t
        rng.shuffle(rest)
        qs = []; made = set()
        ans = list(c["ans"]); rng.shuffle(ans)
        if len(ans) > 14: ans = ans[:14]
        for a in ans:
            cwd = path(rng.choice(c["dirs"]))
            k = a["a"]["k"] + str(a["a"].get("at"))
            qs.append({"cwd": cwd, "start": spell(rng, c, a["l"], cwd), "crate": a["a"]["k"] == "alone" or k not in made}); made.add(k)
        wss = rng.sample(c["ws"], min(2, len(c["ws"]))); ws = []
        for w in wss:
            cwd = path(rng.choice(c["dirs"])); ws.append({"cwd": cwd, "start": spell(rng, c, {"d": w["d"], "f": ""}, cwd)})
            if ws[-1]["start"] == "": ws[-1]["start"] = "."
        cases.append({"tree": tree + rest, "queries": qs, "ws": ws}); want.append((c, ans, wss, names, text))
    # absolute entry points are only known in the harness
    n = 8; parts = [list(range(i, len(cases), n)) for i in range(n)]; res = [None] * len(cases)
    def go(ix):
        for i, r in zip(ix, vt.run_cases(binp, "proj", [cases[i] for i in ix], timeout=1500, env={"VT_THREADS": "1"})): res[i] = r
    with concurrent.futures.ThreadPoolExecutor(n) as ex: list(ex.map(go, parts))
    for case, (c, ans, wss, names, text), r in zip(cases, want, res):
        rep.count("trees")
        if r is None or "q" not in r: rep.bad("crash", "discovery crashes", case, None, r); continue
        if len(c["man"]) > 1 and len(case["tree"]) > 20: rep.sample({"tree": case["tree"], "queries": case["queries"][:4]})
        def proj(at, a, g, where, kind):
            "compare one project; a: {entry, sources, src, version, name}"
            nm, ent = names[tuple(at)]
            e = {"root": path(at + ["src"] + a["entry"][:-1], a["entry"][-1]), "name": nm}
            if a["src"] and g["files"] is None: return rep.bad(kind + "-files", "the source files of a project cannot be listed", where, None, g)
            if not a["src"]: return rep.bad(kind, "a project is another one than the manifest says", where, e, g) if any(g[k] != e[k] for k in e) else None
            e.update(src=path(at + ["src"]), cname=nm, version=VERSION[a["version"]], entry=ent)
            d = [k for k in e if k in g and e[k] != g[k] and not (k == "entry" and ent.startswith("@ROOT@"))]
            if d: return rep.bad(kind + "-" + d[0], "the %s of a project is not what the manifest says" % d[0], where, {k: e[k] for k in d}, {k: g[k] for k in d})
            if a["sources"]:
                s = sorted([path(x["d"], x["f"]), module(x["m"])] for x in a["sources"])
                if s != sorted(g["files"]): return rep.bad(kind + "-modules", "the modules of a project are not the source files under its source directory", where, s, g["files"])
                if not {x[0] for x in s} <= set(g["contains"]): return rep.bad("contains", "a source file does not belong to its project", where, s, g["contains"])
            else: s = []
            out = [x for x in g["contains"] if not (x + "/").startswith(path(at) + "/" if path(at) else "")]
            if out: return rep.bad("contains", "a file outside a project belongs to it", where, [], out)
            if "crate" in g:
                k = g["crate"]
                if not a["good"]:
                    if "err" not in k: return rep.bad("crate", "a project with unreadable or no source files gives a crate", where, "an error", k)
                elif a["has"]:
                    w = {"modules": sorted([m, p, text[p]] for p, m in s), "main": module(a["entry"]), "root": e["root"], "name": nm}
                    if "err" in k: return rep.bad("crate", "a project gives no crate", where, w, k)
                    k["modules"].sort()
                    if k != w: return rep.bad("crate", "the crate of a project is another one", where, w, k)
                elif "err" not in k and sorted(k["modules"]) != sorted([m, p, text[p]] for p, m in s): return rep.bad("crate", "the crate of a project has other modules", where, s, k)
        for q, a, g in zip(case["queries"], ans, r["q"]):
            rep.count("starting places"); l, a = a["l"], a["a"]; where = {"tree": case["tree"], "queries": [q], "ws": []}
            if "panic" in g: rep.bad("panic", "discovery panics", where, a, g); continue
            if a["k"] == "error":
                if g["k"] != "err": rep.bad("malformed", "a malformed manifest gives no error", where, "an error", g)
            elif a["k"] == "open":
                if g["m"] is not None or len(g.get("files") or []) > 1: rep.bad("outside", "a project is found outside every project", where, None, g)
            elif a["k"] == "alone":
                p = path(l["d"], l["f"]); st = fname(l["f"]).rsplit(".", 1)[0] or fname(l["f"])
                if l["f"] == "hidcm": st = ".hid"
                e = {"k": "ok", "m": None, "root": p, "name": st, "cname": st, "files": [[p, st]], "version": "0.1.0", "src": path(l["d"]), "contains": [p]}
                d = [k for k in e if e[k] != g.get(k)]
                if d: rep.bad("alone-" + d[0], "a standalone file is another project", where, e, g); continue
                k = g["crate"]; byt = any(f["d"] == l["d"] and f["f"] == l["f"] and f["c"] == "bytes" for f in c["files"])
                if byt != ("err" in k) or (not byt and k != {"modules": [[st, p, text[p]]], "main": st, "root": p, "name": st}): rep.bad("alone-crate", "the crate of a standalone file is another one", where, st, k)
            elif g["k"] != "ok": rep.bad("missing", "the enclosing project is not found", where, a, g)
            elif g["m"] != path(a["at"], "manifest"): rep.bad("manifest", "another manifest is found", where, path(a["at"], "manifest"), g["m"])
            else: proj(a["at"], a, g, where, "project")
        # every project of a workspace is the one found from its own directory
        own = {tuple(a["a"]["at"]): a["a"] for a in c["ans"] if a["a"]["k"] == "project"}
        for w, q, g in zip(wss, case["ws"], r["ws"]):
            rep.count("workspaces"); where = {"tree": case["tree"], "queries": [], "ws": [q]}
            if g.get("k") != "ok": rep.bad("workspace", "a workspace is refused", where, None, g); continue
            e = {path(p + ["src"] + own[tuple(p)]["entry"][:-1], own[tuple(p)]["entry"][-1]): p for p in w["p"]}
            roots = [x["root"] for x in g["projects"]]
            if len(e) != len(w["p"]): continue      # two projects with the same entry file cannot be told apart
            if sorted(e) != roots: rep.bad("workspace", "the projects of a workspace are not those below it", where, sorted(e), roots); continue
            for x in g["projects"]:
                x = dict(x); x["contains"] = [f[0] for f in x["files"]] if x["files"] else []
                proj(e[x["root"]], own[tuple(e[x["root"]])], x, where, "workspace")
            ns = {names[tuple(p)][0] for p in w["p"]}
            if {x[0] for x in g["names"]} != ns or len(g["names"]) != len(ns) or any(x[0] != x[1] for x in g["names"]): rep.bad("workspace-names", "the names of a workspace are not those of its projects", where, sorted(ns), g["names"])
