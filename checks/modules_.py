"""C01, C02, C06, C19: histories of Modules.tla replayed on one long-lived database, delta trackers and fresh databases."""
import json, random, re, zlib
import vt

DECL = {"fnF": "fn %s() -> felt { return 1; }", "fnU": "fn %s() -> u32 { return 1; }", "fnP": "fn %s(p: felt) -> felt { return p; }",
        "fnPU": "fn %s(p: u32) -> u32 { return p; }", "stF": "struct %s { x: felt }", "stU": "struct %s { x: u32 }",
        "coF": "const %s: felt = 7;", "coU": "const %s: u32 = 7;", "coI": "const %s = 7u32;"}
USE = {"callF": "fn %s() { let _v: felt = %s(); return; }", "callU": "fn %s() { let _v: u32 = %s(); return; }",
       "callP": "fn %s() { let _v: felt = %s(1); return; }", "callPU": "fn %s() { let _v: u32 = %s(1); return; }",
       "litF": "fn %s() { let _s = %s { x: 1 }; let _v: felt = _s.x; return; }", "litU": "fn %s() { let _s = %s { x: 1 }; let _v: u32 = _s.x; return; }",
       "parmF": "fn %s(p: %s) -> felt { return p.x; }", "parmU": "fn %s(p: %s) -> u32 { return p.x; }",
       "valF": "fn %s() { let _v: felt = %s; return; }", "valU": "fn %s() { let _v: u32 = %s; return; }"}

# spellings of the model's names; some are prefixes of each other
SPELL = [{"f": "f", "g": "g", "h": "h"}, {"f": "get", "g": "getter", "h": "ge"}, {"f": "Abc", "g": "Ab", "h": "A"}, {"f": "x1", "g": "x", "h": "x12"}]
def respell(x, sp):
    g = lambda n: sp.get(n, n)
    return dict(x, decl={g(n): v for n, v in x["decl"].items()}, imp={g(n): v for n, v in x["imp"].items()}, uses=[dict(u, n=g(u["n"])) for u in x["uses"]])
def text(x):
    """Render a module; regions: ('clause'|'item', name) and ('site', i) -> (start, end)."""
    reg = {}; names = sorted(x["decl"])
    out = []; pos = 0
    def put(s):
        nonlocal pos
        out.append(s); pos += len(s)
    def imports():
        by = {}
        for n in names:
            if x["decl"][n] == "none" and x["imp"][n] != "none": by.setdefault(x["imp"][n], []).append(n)
        for src, ns in sorted(by.items()):
            for grp in ([ns] if x["list"] else [[n] for n in ns]):
                a = pos; put("use %s::" % src)
                br = len(grp) > 1 or x["pad"] >= 2
                if br: put("{")
                for j, n in enumerate(grp):
                    if j: put(", ")
                    reg["item", n] = (pos, pos + len(n)); put(n)
                if br: put("}")
                put(";")
                for n in grp: reg["clause", n] = (a, pos)
                put("\n")
    def sites():
        for i, u in enumerate(x["uses"]):
            a = pos; put(USE[u["f"]] % ("_s%d" % (i + 1), u["n"])); reg["site", str(i + 1)] = (a, pos); put("\n")
    if x["pad"] >= 2: put("// a module\n\n")
    def decls(const):
        for n in names:
            if x["decl"][n] == "none" or (x["decl"][n][:2] == "co") != const: continue
            a = pos; put(DECL[x["decl"][n]] % n); reg["item", n] = (a, pos); put("\n")
    # a constant is visible from its declaration on, functions, structs and imports everywhere
    if x["pad"] % 2 == 0: imports(); decls(True); decls(False); sites()
    else: decls(True); sites(); decls(False); imports()
    if x["bad"]: put("fn broken( { return ;\n")
    return "".join(out), reg

def inside(d, m, r): return d[2] == m + ".cm" and r[0] <= d[3] and d[4] <= r[1]

def judge(cont, seen, diag):
    """Compare what the model owes with reported diagnostics; returns (what, expected, observed) or None."""
    st = seen["st"]
    owed = [tuple(o) for o in seen["d"]]
    regs = {m: text(x)[1] for m, x in cont.items()}
    if st == "broken":
        bad = {o[0] for o in owed}
        for m in bad:
            if not any(d[2] == m + ".cm" and d[1] == "Error" for d in diag): return "a syntax error is not reported in module %s" % m, owed, diag
        for d in diag:
            if d[2][:-3] not in bad: return "an error is reported in a module that parses, while another does not", owed, diag
        return None
    if st == "cyclic":
        errs = [d for d in diag if d[1] == "Error"]
        if not errs: return "a cyclic import is not reported", owed, diag
        for d in errs:
            mt = re.search(r"([\w:]+(?: -> [\w:]+)+)", d[5])
            if mt:
                p = mt.group(1).split(" -> ")
                if p[0] != p[-1] or any((a, b) not in owed for a, b in zip(p, p[1:])): return "the reported cycle is none", owed, d
        return None
    errs = [d for d in diag if d[1] == "Error" or d[0].startswith("Unused")]
    left = [d for d in errs]
    und = {}
    for m, what, w in sorted(owed):
        if what in ("mod", "item", "unused"):
            code = {"mod": "UnresolvedModule", "item": "UnresolvedImport", "unused": "UnusedVariable"}[what]
            r = regs[m]["clause" if what == "mod" else "item", w]
            hit = [d for d in errs if d[0] == code and inside(d, m, r)]
            if not hit: return "%s of `%s` in module %s is not reported" % (code, w, m), owed, errs
            for d in hit:
                if d in left: left.remove(d)
        else:
            hit = [d for d in errs if inside(d, m, regs[m]["site", w])]
            if what == "site" and not hit:
                return "a use that does not fit the declaration it resolves to is accepted in module %s: %s" % (m, cont[m]["uses"][int(w) - 1]), owed, errs
            if what == "undeclared": und.setdefault((m, cont[m]["uses"][int(w) - 1]["n"]), []).extend(hit)
            for d in hit:
                if d in left: left.remove(d)
    for k, v in und.items():
        if not v: return "the undeclared name `%s` in module %s is not reported" % (k[1], k[0]), owed, errs
    left = [d for d in left if not (d[0].startswith("Unused") and not d[0] == "UnusedVariable")]
    if left: return "a diagnostic that nothing in the sources warrants: %s" % left[0], owed, errs
    return None

def prepare(c):
    """ops of the model -> ops of the harness; snapshots of the project at each query."""
    cont = {}; ops = []; snaps = []; j = 0
    sp = SPELL[zlib.crc32(json.dumps(c["ops"]).encode()) % len(SPELL)]
    for o in c["ops"]:
        if o["op"] == "set":
            o = dict(o, x=respell(o["x"], sp))
            cont = dict(cont); cont[o["m"]] = o["x"]
            ops.append({"op": "set", "m": o["m"], "t": text(o["x"])[0], "reuse": o["k"] == 1})
        elif o["op"] == "del":
            cont = {k: v for k, v in cont.items() if k != o["m"]}; ops.append(o)
        elif o["op"] in ("q", "qm", "delta"):
            h = dict(o); st = c["seen"][j]["st"]
            if o["op"] == "q": h["want"] = ["diag"] if st != "ok" else ["diag", "res", "types"]
            seen = dict(c["seen"][j], d=[[d[0], d[1], sp.get(d[2], d[2])] if len(d) == 3 else d for d in c["seen"][j]["d"]])
            ops.append(h); snaps.append((o, cont, seen)); j += 1
        else: ops.append(o)
    return ops, snaps

def key(v): return sorted(set(json.dumps(d) for d in v)) if isinstance(v, list) else v

def check(pid, rep):
    binp = vt.build("front")
    run = vt.TlcRun()
    q = {"C06": '{"q"}', "C01": '{"q", "qm"}', "C02": '{"delta"}', "C19": '{"q"}'}[pid]
    T = vt.THOROUGH
    if pid == "C06":
        # every pair of modules over one name, every kind and form: exhaustive
        vt.tlc("Modules", "Modules_bfs.cfg", {"Queries": q, "MaxOps": "3", "Kinds": '{"fnF", "fnPU", "stF", "coU"}', "Forms": '{"callF", "litF", "parmU", "valU"}'}, run=run, workers=6)
        vt.tlc("Modules", "Modules_sim.cfg", {"Queries": q, "MaxOps": "10"}, mode="sim", num=2500 if T else 260, depth=14, run=run)
    elif pid in ("C01", "C02"):
        vt.tlc("Modules", "Modules_bfs.cfg", {"Queries": '{"q"}' if pid == "C01" else '{"delta"}', "MaxOps": "5" if T else "4", "Kinds": '{"fnF", "fnU"}' if pid == "C01" or T else '{"fnF"}'}, run=run, workers=6, timeout=3000)
        n = len(run.cases)
        vt.tlc("Modules", "Modules_sim.cfg", {"Queries": q, "MaxOps": "18"}, mode="sim", num=2500 if T else 200, depth=24, run=run)
        if not T and n > 6000:
            rng = random.Random(vt.SEED); keep = rng.sample(run.cases[:n], 6000); run.cases = keep + run.cases[n:]
            rep.extra["exhaustive_histories_sampled"] = "6000 of %d" % n
    else:
        vt.tlc("Modules", "Modules_sim.cfg", {"Queries": q, "MaxOps": "10"}, mode="sim", num=2000 if T else 200, depth=14, run=run)
        # projects in which most modules do not parse
        vt.tlc("Modules", "Modules_sim.cfg", {"Queries": q, "MaxOps": "8", "BadOdds": "2"}, mode="sim", num=300 if T else 40, depth=12, run=run)
    rep.add_run(run)
    prep = [prepare(c) for c in run.cases]
    if pid == "C19": return order(rep, binp, prep)
    cases = [{"ops": o, "entry": "main"} for o, _ in prep]
    res = vt.run_cases(binp, "hist", cases, timeout=1500)
    for c, (ops, snaps), r in zip(cases, prep, res):
        hist = [x["op"] + (":" + x.get("m", "") if x.get("m") else "") for x in ops]
        if r is None or "out" not in r: rep.bad("crash", "replaying a history crashed", c, None, r); continue
        rep.sample(hist)
        for j, ((o, cont, seen), a) in enumerate(zip(snaps, r["out"])):
            got, want = a["got"], a["want"]
            def bad(what, exp, obs):
                rep.bad("%s:%d" % (o["op"], j), what + " (query %d of %s)" % (j + 1, " ".join(hist)), {"ops": ops, "mods": [[m, text(x)[0]] for m, x in cont.items()]}, exp, obs)
            if pid == "C06":
                rep.count(seen["st"])
                for v in (got, want):
                    if "panic" in v: bad("analysis panicked", None, v); break
                    w = judge(cont, seen, v["diag"])
                    if w: bad(*w); break
            elif pid == "C01":
                rep.count(o["op"] + ":" + seen["st"])
                if "panic" in got if isinstance(got, dict) else False:
                    bad("the long-lived database panicked", want, got); continue
                if norm(got) != norm(want): bad("the long-lived database disagrees with a fresh one", diff(want, got), diff(got, want)); continue
                if o["op"] == "q":
                    w = judge(cont, seen, got["diag"])
                    if w: bad("not what the sources warrant: " + w[0], w[1], w[2])
            else:
                rep.count("delta:" + seen["st"])
                if isinstance(got, dict): bad("the tracker panicked", a["full"], got); continue
                if key(got) != key(want): bad("the tracker disagrees with a fresh tracker", diff(want, got), diff(got, want)); continue
                if seen["st"] != "broken" and key(got) != key(a["full"]):
                    bad("the tracker disagrees with the project's full diagnostics", diff(a["full"], got), diff(got, a["full"]))

def norm(v): return json.dumps(v, sort_keys=True)
def diff(a, b):
    if isinstance(a, list) and isinstance(b, list): return [x for x in a if x not in b] or "(same set, other order)"
    if isinstance(a, dict) and isinstance(b, dict): return {k: diff(a[k], b.get(k)) for k in a if a[k] != b.get(k)}
    return a

def order(rep, binp, prep):
    """The same modules, in every insertion order and in several runs: same diagnostics, same order, each once."""
    rng = random.Random(vt.SEED); cases = []; meta = []
    for ops, snaps in prep:
        for o, cont, seen in snaps[-1:]:
            mods = [[m, text(x)[0]] for m, x in cont.items()]
            group = []
            for k in range(4):
                p = mods[:]; rng.shuffle(p); group.append(len(cases)); cases.append({"mods": p, "entry": rng.choice(p)[0], "want": ["diag"] if seen["st"] != "ok" else ["diag", "types"]})
            meta.append((mods, group))
    cases += extra_programs(meta, len(cases))
    res = vt.run_cases(binp, "analyze", cases)
    for mods, group in meta:
        rs = []
        for i in group:
            r = dict(res[i] or {"crash": "none"}); r.pop("i", None); rs.append(r)
        rep.count("projects"); rep.sample([m for m, _ in mods])
        case = {"mods": mods}
        if any("diag" not in r for r in rs): rep.bad("crash", "analysis crashed", case, None, rs[0]); continue
        if any(norm(r) != norm(rs[0]) for r in rs[1:]):
            o = [r for r in rs if norm(r) != norm(rs[0])][0]
            rep.bad("order", "the same modules give different results in another run or insertion order", case, rs[0]["diag"], o["diag"]); continue
        ds = [json.dumps(d) for d in rs[0]["diag"]]
        if len(set(ds)) != len(ds): rep.bad("twice", "a diagnostic is reported twice", case, None, [d for d in ds if ds.count(d) > 1])

def extra_programs(meta, base):
    """Single-module programs of the other specifications (errors of every kind)."""
    import scoping, controlflow
    out = []
    for mod, cfg, f in (("ControlFlow", "ControlFlow_sim.cfg", lambda c: vt.render(c["toks"])[0]), ("Scoping", "Scoping_sim.cfg", lambda c: vt.render(c["toks"])[0])):
        run = vt.tlc(mod, cfg, mode="sim", num=60, depth=60, procs=4)
        for c in run.cases[:400]:
            t = f(c); g = []
            for k in range(3): g.append(base + len(out)); out.append({"mods": [["main", t]], "want": ["diag", "types"]})
            meta.append(([["main", t]], g))
    return out
