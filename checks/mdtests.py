"""C17: MdTests.tla against mdtest::extract_tests and MdTestRunner."""
import glob, random, re
import vt
# heading texts: markdown, plain text
TITLE = {0: ("", ""), 1: ("Integer literals", "Integer literals"), 2: ("The `felt` type", "The felt type"), 3: ("a & b &lt; c", "a & b < c"), 4: ("*All* **loops**", "All loops"),
         5: ("Struct `P` and `Q`", "Struct P and Q"), 6: ("été → 数", "été → 数"), 7: ("[linked](http://x) text", "linked text"), 8: ("it\\_s \\*plain\\*", "it_s *plain*"), 9: ("C#", "C#"),
         10: ("Early returns, with loops", "Early returns, with loops"), 11: ("Wrap (7) x - y", "Wrap (7) x - y")}
FILL = {1: "Just a paragraph with `code`\nover two lines.", 2: "<!--\n```cairo-m\nfn hidden() {}\n```\n-->", 3: "```bash\n# run it\ncargo test\n```", 4: "    # an indented block\n    fn not_a_test() {}",
        5: "````markdown\n## Not a heading\n\n```cairo-m\nfn nested() {}\n```\n````", 6: "- a list\n- of `items`", 7: "```\nno language\n```", 8: "> a quote\n> of two lines", 9: "~~~text\n```cairo-m\n~~~"}
CFG = {0: None, 1: ("[mdtest]\ntimeout = 7\nmax-steps = 9\n[compiler]\noptimization-level = 2\n", [7, 9, 2]), 2: ("[mdtest]\ntimeout = 70\n", [70, 1000000, 0]), 3: ("[mdtest]\nmax-steps = 12\n", [5000, 12, 0]),
       4: ("[compiler]\noptimization-level = 1\n", [5000, 1000000, 1]), 5: ("", [5000, 1000000, 0]), 6: ("[config]\nkey = \"value\"\n", [5000, 1000000, 0]), 7: ("[mdtest]\n[compiler]\noptimization-level = 1\n", [5000, 1000000, 1])}
# Documents of the recorded findings: (key, document, names, Rust code and configuration of its tests). The generated
# documents stay clear of what these are about.
B = "```cairo-m\n// %d\n```\n\n"
WITNESS = [("heading-code", "# The `felt` type\n\n" + B % 1, [("The felt type", None, None)]),
           ("heading-entity", "# a & b &lt; c\n\n" + B % 1, [("a & b < c", None, None)]),
           ("heading-empty", "# A\n\n## B\n\n#\n\n" + B % 1, [("Orphaned Test (no heading)", None, None)]),
           ("rust-strays", "# A\n\n```rust\nfn r() {}\n```\n\n# B\n\n" + B % 1, [("B", None, None)]),
           ("indented-block", "# A\n\n" + B % 1 + "    # an indented block\n\n", [("A", None, None)]),
           ("config-default", "# A\n\n```toml\n[compiler]\noptimization-level = 1\n```\n\n" + B % 1, [("A", None, [5000, 1000000, 1])])]
BAD = ["[mdtest\n", "[mdtest]\ntimeout = \"x\"\n", "key =\n", "[compiler]\noptimization-level = 300\n", "[mdtest]\nmax-steps = -1\n"]
LINES = ["fn f() -> felt {", "    return 1;", "", "}", "# no heading", "## no heading `x`", "    // a comment", "let s = \"q\"; ", "é → 😀", "<!-- x -->", "* no list", "fail", "//! !", "    ", "> x", "&lt; &amp;", "\\# \\n", "[toml]"]
def source(rng):
    return [rng.choice(LINES[:12] + LINES[13:]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
ANN = {"expected": ("//! expected: 4, 2", "4, 2"), "error": ("//! error: \"Division by zero\"", "Division by zero"), "tags": ("//! tags: [a, b-c]", ["a", "b-c"]),
       "rust-equiv": ("//! rust-equiv: compute_sum", "compute_sum"), "ignore": ("//! ignore: not: yet", "not: yet"), "other": ("//! see below", None)}
def fence(rng, lang, body, last):
    "a code block in one of its spellings"
    ch, n = rng.choice("```~"), rng.choice([3, 3, 4, 5]); ind = " " * rng.choice([0, 0, 0, 1, 3])
    f = ind + ch * n
    style = rng.choice(["plain"] * 6 + ["list", "quote"])
    # inside containers and behind an indentation the content loses it
    lines = [(ind if l else "") + l for l in body]
    if last and rng.random() < 0.3: style = "open"      # closed by the end of the document
    else: lines.append(f)
    b = [f + rng.choice(["", " "]) * (ch == "`") + lang] + lines
    if style == "list" and not ind: return "\n".join(["- item", ""] + [("  " + l) if l else "" for l in b])
    if style == "quote" and not ind: return "\n".join("> " + l if l else ">" for l in b)
    return "\n".join(b)
def heading(rng, l, md):
    if l <= 2 and md and rng.random() < 0.25: return md + "\n" + "=-"[l - 1] * rng.choice([3, 8])
    return " " * rng.choice([0, 0, 2]) + "#" * l + (" " + md if md else "") + (" " + "#" * l if md and md[-1] != "#" and rng.random() < 0.2 else "")
def write(rng, c):
    out = []; src = {}; rust = {}; ann = {}
    for i, b in enumerate(c["doc"]):
        last = i == len(c["doc"]) - 1
        if b["k"] == "h": out.append(heading(rng, b["l"], TITLE[b["t"]][0]))
        elif b["k"] == "fill": out.append(FILL[b["f"]])
        elif b["k"] == "toml": out.append(fence(rng, "toml", CFG[b["c"]][0].split("\n")[:-1], last))
        elif b["k"] == "badtoml": out.append(fence(rng, "toml", rng.choice(BAD).split("\n")[:-1], last))
        elif b["k"] == "rust":
            L = ["fn r%d() {" % b["id"]] + source(rng) + ["}"]; rust[b["id"]] = "".join(x + "\n" for x in L); out.append(fence(rng, "rust", L, last))
        else:
            L = source(rng) + ["// %d" % b["id"]]; L = L if rng.random() < 0.9 else L[:-1]
            if L and L[-1].strip() == "": L.append("// end")
            if rng.random() < 0.05: L = []
            src[b["id"]] = "\n".join(L)
            a = sorted(b["ann"]); rng.shuffle(a)
            full = list(L)
            for x in a: full.insert(rng.choice([0, 0, 0, rng.randint(0, len(full))]), rng.choice(["", "", "  "]) + ANN[x][0])
            out.append(fence(rng, "cairo-m", full, last))
        # a paragraph closes lists and quotes
        if out[-1].startswith(("- ", "> ")): out.append("<!-- -->")
    return "\n\n".join(out) + "\n", src, rust
def snapshot(t):
    s, n = t["src"], t["name"]; err = "fail" in s
    if t["ignore"] is not None: return None
    bar = "=" * 60
    if t["error"] is None: return "Source:\n%s\n%s\n%s" % (s, bar, ("Result: UNEXPECTED ERROR\nno %s" % n) if err else "Generated Phase:\ndid %s\n%s" % (n, s))
    return "Source:\n%s\n%s\nResult: EXPECTED ERROR\nno %s" % (s, bar, n) if err else None
def check(pid, rep):
    binp = vt.build("front"); T = vt.THOROUGH; run = vt.TlcRun()
    vt.tlc("MdTests", "MdTests_bfs.cfg", {"MaxBlocks": "5" if T else "4"}, run=run, workers=8, timeout=2000)
    vt.tlc("MdTests", "MdTests_sim.cfg", {"MaxBlocks": "16"}, mode="sim", num=4000 if T else 700, depth=60, run=run, procs=8, timeout=2000)
    rep.add_run(run); rng = random.Random(vt.SEED)
    cases, want = [], []
    for c in run.cases:
        md, src, rust = write(rng, c)
        if rng.random() < 0.1: md = md.replace("\n", "\r\n")
        cases.append({"md": md, "run": True}); want.append((c, src, rust))
    for case, (c, src, rust), r in zip(cases, want, vt.run_cases(binp, "md", cases, timeout=1500)):
        rep.count("documents"); rep.count("tests", len(c["tests"])); md = case["md"]
        if len(c["doc"]) > 12: rep.sample(md)
        if r is None or "crash" in r or "panic" in r.get("ex", {}) or "panic" in (r.get("run") or {}): rep.bad("panic", "extraction panicked", case, None, r); continue
        ex = r["ex"]
        if c["bad"]:
            if "err" not in ex: rep.bad("no-error", "a malformed configuration is accepted", case, "an error", ex)
            continue
        if "err" in ex: rep.bad("error", "a well-formed document is refused", case, None, ex["err"]); continue
        got = ex["v"]; exp = []
        for t in c["tests"]:
            k = " - ".join(TITLE[x][1] for x in t["key"]) or "Orphaned Test (no heading)"
            e = {"name": k if t["n"] == 1 else "%s %d" % (k, t["n"]), "src": src[t["src"]], "files": 0, "file": r["at"]}
            for a in ("expected", "error", "rust-equiv", "ignore"): e[a] = ANN[a][1] if a in t["ann"] else None
            e["tags"] = ANN["tags"][1] if "tags" in t["ann"] else []
            exp.append((e, [rust.get(x) for x in t["rust"]], [CFG[x] and CFG[x][1] for x in t["cfg"]]))
        if len(got) != len(exp): rep.bad("number", "the document yields another number of tests", case, [e["name"] for e, _, _ in exp], [g["name"] for g in got]); continue
        for (e, rs, cf), g in zip(exp, got):
            d = [k for k in e if e[k] != g[k]]
            if d: rep.bad("test-" + d[0], "a test differs in " + ", ".join(d), case, {k: e[k] for k in d}, {k: g[k] for k in d}); break
            gr = g["rust"] and g["rust"].replace("\r\n", "\n")
            if gr not in rs: rep.bad("rust", "the Rust code of test %s is another one" % g["name"], case, rs, gr); break
            if g["cfg"] not in cf: rep.bad("config", "the configuration of test %s is another one" % g["name"], case, cf, g["cfg"]); break
        else:
            w = [[g["name"], snapshot(g)] for g in got if snapshot(g) is not None]
            o = [s[:2] for s in r["run"]["v"]]
            if w != o: rep.bad("snapshots", "the runner's snapshots are not those of the tests", case, w, o)
            elif any(re.sub(r"[^\w]", "_", s[0], flags=re.ASCII).lower() != s[2] for s in r["run"]["v"] if s[0].isascii()): rep.bad("suffix", "snapshot suffix", case, None, r["run"]["v"])
    for (key, md, exp), r in zip(WITNESS, vt.run_cases(binp, "md", [{"md": w[1]} for w in WITNESS], timeout=60)):
        rep.count("documents"); got = [(g["name"], g["rust"], g["cfg"]) for g in r.get("ex", {}).get("v", [])]
        if got != [(a, b, c) for a, b, c in exp]: rep.bad(key, "a document of a recorded finding", {"md": md}, exp, r.get("ex"))
    # files that cannot be read, and the repository's own documents
    for c in ({"path": "/nonexistent/x.md"}, {"bytes": [35, 32, 255, 254, 10]}):
        r = vt.run_cases(binp, "md", [c], timeout=60)[0]; rep.count("documents")
        if "err" not in r.get("ex", {}): rep.bad("unreadable", "an unreadable file gives no error", c, "an error", r)
    r = vt.run_cases(binp, "md", [{"all": True}], timeout=60)[0]
    files = sorted(glob.glob("/repo/mdtest/**/*.md", recursive=True)); rep.count("documents", len(files))
    if sorted(r.get("files", [])) != files or sorted(x[0] for x in r["all"]) != files: rep.bad("discovery", "not every markdown file is found", {"all": 1}, files, r.get("files")); return
    for p, ts in r["all"]:
        n = 0; inside = None
        for l in re.sub(r"(?ms)^<!--.*?-->", "", open(p, encoding="utf-8").read()).split("\n"):
            m = re.match(r"^ {0,3}(`{3,}|~{3,})\s*([^`\s]*)", l)
            if m and inside is None: inside = m[1]; n += m[2] == "cairo-m"
            elif m and inside and m[1][0] == inside[0] and len(m[1]) >= len(inside) and not m[2]: inside = None
        if n != len(ts): rep.bad("repository", "%s has %d tests" % (p, n), {"path": p}, n, len(ts))
