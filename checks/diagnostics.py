"""C18: Diagnostics.tla against DiagnosticCollection, VecSink and the rendering of diagnostics."""
import random, re, unicodedata
import vt
SEV = {1: "e", 2: "w", 3: "i", 4: "h"}
WORD = {"e": "Error", "w": "Warning", "i": "Advice", "h": "Advice"}
LOW = {"e": "error", "w": "warning", "i": "info", "h": "hint"}
MSG = ["", "A z", "a", "a b", "é"]       # in the order of their code points
CH = {"a": "ab0(;z", "E": "éßп", "J": "😀𝒳", "NL": "\n", "CRLF": "\r\n", "TAB": "\t"}
def diag(d, rng_codes):
    n = d["n"]
    x = {"s": SEV[d["s"]], "m": MSG[d["m"] - 1], "c": rng_codes[n % len(rng_codes)], "f": "src/m%d.cm" % (n % 3), "at": [n, n + d["m"]], "rel": [[n + 1, n + 2, "see %d" % n]] if n % 4 == 0 else []}
    return x
def display(d):
    return "%s: %s (at %d:%d)" % (LOW[d["s"]], d["m"], d["at"][0], d["at"][1]) + "".join("\n  note: %s (at %d:%d)" % (r[2], r[0], r[1]) for r in d["rel"])
def answers(h, codes):
    a = [diag(d, codes) for d in h["all"]]
    return {"all": a, "iter": a, "into": a, "err": [d for d in a if d["s"] == "e"], "warn": [d for d in a if d["s"] == "w"], "has": h["err"] > 0, "len": len(a), "empty": not a,
            "sum": "%d errors, %d warnings" % (h["err"], h["warn"]) if a else "No issues found", "disp": "".join(map(display, a)), "eq": True}
def width(s): return sum(2 if unicodedata.east_asian_width(c) in "WF" else 1 for c in s)
STRIP = re.compile(r"\x1b\[[0-9;]*m")
def gutter(out):
    "line number -> text, and the row below it"
    g = {}; rows = out.split("\n")
    for i, r in enumerate(rows):
        m = re.match(r"^ *(\d+) │(.*)$", r)
        if m: g[int(m[1])] = (m[2], rows[i + 1] if i + 1 < len(rows) else "")
    return g
def squash(s): return re.sub(r"\s", "", s)
def check(pid, rep):
    binp = vt.build("front"); T = vt.THOROUGH; run = vt.TlcRun()
    vt.tlc("Diagnostics", "Diagnostics_bfs.cfg", {"MaxOps": "4" if T else "3"}, run=run, workers=8, timeout=2000)
    vt.tlc("Diagnostics", "Diagnostics_sim.cfg", {}, mode="sim", num=600 if T else 60, depth=20, run=run, procs=8, timeout=2000)
    vt.tlc("Diagnostics", "Diagnostics_bfs.cfg", {"Kind": '"render"', "MaxLen": "5" if T else "4"}, run=run, workers=8, timeout=2000)
    vt.tlc("Diagnostics", "Diagnostics_sim.cfg", {"Kind": '"render"'}, mode="sim", num=3000 if T else 400, depth=60, run=run, procs=8, timeout=2000)
    rep.add_run(run)
    rng = random.Random(vt.SEED)
    tab = [c for c in run.cases if c["k"] == "tables"][0]; codes = sorted(tab["codes"])
    # ---- constructors and codes
    r = vt.run_cases(binp, "diag", [{"ctors": True}], timeout=60)[0]
    rep.count("constructors", len(r["ctors"]))
    got = dict(map(tuple, r["codes"]))
    if got != tab["codes"]: rep.bad("codes", "the diagnostic codes have other numbers", {"ctors": True}, {k: v for k, v in tab["codes"].items() if got.get(k) != v}, {k: v for k, v in got.items() if tab["codes"].get(k) != v})
    for k, g in r["ctors"].items():
        w = tab["ctors"].get(k)
        e = {"s": SEV[w[0]], "c": w[1], "m": w[2] + "x'y" + w[3]} if w else {"s": "e", "c": {"break_outside_loop": "BreakOutsideLoop", "continue_outside_loop": "ContinueOutsideLoop"}[k], "m": "`%s` outside of loop" % k.split("_")[0]}
        e.update(f="dir/a.cm", at=[3, 7], rel=[])
        if e != g: rep.bad("constructor", "the constructor %s builds another diagnostic" % k, {"ctors": k}, e, g)
    # ---- collections
    cases, want = [], []
    for n, c in enumerate(x for x in run.cases if x["k"] == "coll"):
        ops = [{"op": o["op"], "ds": [diag(d, codes) for d in o["ds"]]} for o in c["ops"]]
        st = [answers(h, codes) for h in c["hist"]]
        mk = ("new", "from", "default")[n % 3]
        # the first batch may come in through the constructor
        if ops and ops[0]["op"] in ("add", "extend"): cases.append({"mk": mk, "init": ops[0]["ds"], "ops": ops[1:]}); want.append((c, st))
        else: cases.append({"mk": mk, "init": [], "ops": ops}); want.append((c, [answers({"all": [], "err": 0, "warn": 0}, codes)] + st))
        if all(o["op"] in ("add", "extend") for o in c["ops"]):
            cases.append({"mk": "sink", "init": [], "ops": ops}); want.append((c, [{"all": []}] + [{"all": s["all"]} for s in st]))
    for case, (c, st), r in zip(cases, want, vt.run_cases(binp, "diag", cases, timeout=1500)):
        rep.count("collection histories"); rep.count("collection queries", len(st) * (11 if case["mk"] != "sink" else 1))
        if r is None or "st" not in r: rep.bad("panic", "a collection operation panicked", case, None, r); continue
        if case["mk"] == "sink" and r["end"] != st[-1]["all"]: rep.bad("sink", "the sink does not hand back what was pushed", case, st[-1]["all"], r["end"])
        for i, (e, g) in enumerate(zip(st, r["st"])):
            d = [k for k in e if e[k] != g.get(k)]
            if d: rep.bad("collection-" + d[0], "the collection answers %s wrongly" % ", ".join(d), dict(case, step=i), {k: e[k] for k in d}, {k: g.get(k) for k in d}); break
    # ---- rendering
    cases, want = [], []
    for n, c in enumerate(x for x in run.cases if x["k"] == "render"):
        t = "".join(rng.choice(CH[x]) if len(CH[x]) > 1 and x != "CRLF" else CH[x] for x in c["t"])
        s = SEV[1 + n % 4]; code = codes[n % len(codes)]; m = ["plain", "two words", "éü 'q'"][n % 3]
        d = {"s": s, "m": m, "c": code, "f": ["a.cm", "dir/é.cm", ""][n % 3], "at": c["b"], "rel": []}
        cases.append({"t": t, "d": d}); want.append((c, tab["codes"][code]))
        # the same with another label on the same text
        a, b = sorted((rng.randint(0, len(t)), rng.randint(0, len(t))))
        o = [len(t[:a].encode()), len(t[:b].encode())]
        cases.append({"t": t, "d": dict(d, rel=[o + ["other label"]])}); want.append((c, tab["codes"][code]))
        # spans that do not fit the text: cut characters, ends outside, start behind the end
        if n % 5 == 0:
            L = len(t.encode()); x, y = rng.randint(0, L + 3), rng.randint(0, L + 3)
            cases.append({"t": t, "d": dict(d, at=[x, y])}); want.append(None)
            cases.append({"t": t, "d": dict(d, rel=[[y, x, "other label"]])}); want.append(None)
    for case, w, r in zip(cases, want, vt.run_cases(binp, "diag", cases, timeout=1500)):
        rep.count("renderings"); d = case["d"]; t = case["t"]
        bad = [k for k in ("plain", "color", "with", "colw", "colp") if r is None or "v" not in r.get(k, {})]
        if bad: rep.bad("render-panic", "rendering a diagnostic panicked", case, None, r.get(bad[0]) if r else None); continue
        v = {k: r[k]["v"] for k in ("plain", "color", "with", "colw", "colp")}
        if r["disp"] != display(d): rep.bad("display", "Display of a diagnostic", case, display(d), r["disp"])
        if STRIP.sub("", v["color"]) != v["plain"] or "\x1b" in v["plain"]: rep.bad("color", "the coloured and the plain rendering differ in their text", case, v["plain"], v["color"])
        if v["with"] != v["color"] or v["colw"] != v["color"] * 2 or v["colp"] != v["plain"] * 2: rep.bad("collection-rendering", "the rendering of a collection is not that of its diagnostics", case, v["plain"], [v["with"], v["colw"], v["colp"]])
        if w is None: continue
        c, num = w; out = v["plain"]; rows = out.split("\n")
        if len(t) > 20 and d["rel"]: rep.sample(case)
        head = "[%02d] %s: %s" % (num, WORD[d["s"]], d["m"])
        if rows[0] != head: rep.bad("header", "the header line of a rendering", case, head, rows[0]); continue
        loc = "%s:%d:%d" % (d["f"], c["from"][0], c["from"][1])
        if len(rows) < 2 or rows[1].strip() != "╭─[ %s ]" % loc: rep.bad("location", "a rendering shows another place", case, loc, rows[1:2]); continue
        lines = re.split(r"\r\n|\n", t); g = gutter(out)
        # (the library shows no excerpt for an empty label that ends the covered region of several)
        for ln in {c["from"][0], c["last"][0]} if c["sp"][0] < c["sp"][1] or not d["rel"] else ():
            if ln not in g or squash(lines[ln - 1]) not in squash(g[ln][0]): rep.bad("excerpt", "a line the diagnostic covers is not shown with its number", case, [ln, lines[ln - 1]], out); break
        else:
            if d["m"] not in "\n".join(rows[2:]) or any(x[2] not in out for x in d["rel"]): rep.bad("label", "a label's message is missing", case, d["m"], out); continue
            # one label on one line: the marks stand exactly under what it covers
            a, b = c["sp"]; body = lines[c["from"][0] - 1]
            if not d["rel"] and c["from"][0] == c["last"][0] and "TAB" not in c["t"] and b > a and c["t"][b - 1] not in ("NL", "CRLF"):
                src, marks = g[c["from"][0]]; marks = re.sub(r"^ *│ ", "", marks)
                k = c["from"][1] - 1
                i = len(marks) - len(marks.lstrip(" ")); n = len(re.match(r"[─┬]*", marks[i:])[0])
                e = (width(body[:k]), width(body[k:k + b - a]))
                if (i, n) != e: rep.bad("marks", "the marks do not stand under the text the diagnostic covers", case, e, [(i, n), out])
