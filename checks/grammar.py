"""C11, C12: programs and token sequences of Grammar.tla against the real parser."""
import json, random, re, zlib
import vt

GLUE = set("&|=!<>-:/+*%^.")
def clash(a, b):
    """Would the two tokens, written next to each other, lex as something else?"""
    if (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] == "_"): return True
    return a[-1] in "&|=!<>-:/" and b[0] in "&|=>:/"

SEPS = ["", "", "", " ", " ", " ", "\n", "  ", "\t", "\r\n", " // c\n", "//\n", "\n\n    "]
def layout(toks, rng, plain=False):
    """Source text and the [start, end) of each token (1-based)."""
    out = []; offs = [None]; pos = 0; prev = None
    def put(s):
        nonlocal pos
        out.append(s); pos += len(s.encode())
    if not plain and rng.random() < .2: put(rng.choice(SEPS))
    for t in toks:
        if prev is not None:
            s = " " if plain else rng.choice(SEPS)
            if s == "" and clash(prev, t): s = " "
            if s.startswith("//") and prev == "/": s = " " + s
            put(s)
        a = pos; put(t); offs.append((a, pos)); prev = t
    if not plain and rng.random() < .3: put(rng.choice(["\n", " // end", "//", " "]))
    return "".join(out), offs

def numval(t):
    suf = next((s for s in ("felt", "u32") if t.endswith(s)), "")
    return str(int(t[:len(t) - len(suf)], 0)) + suf

def want_nodes(n, offs, spans=True):
    o = []
    for x in n:
        at = numval(x["at"]) if x["k"] in ("lit", "num", "tidx") else x["at"]
        if spans and x["a"] > 0: o.append([x["k"], at, x["c"], offs[x["a"]][0], offs[x["b"] - 1][1]])
        else: o.append([x["k"], at, x["c"]])
    return o
def shape(n): return [x[:3] for x in n]

def quirk_ends(n):
    """Ends as known finding has them: a call ends after its last argument (or two characters after its callee), an index
    access after its index, whatever the source text says; nodes that end in such a node inherit it."""
    st = []; out = []
    for x in n:
        k, at, c = x[:3]
        ch = st[len(st) - c:] if c else []
        if c: del st[len(st) - c:]
        e = x[4] if len(x) > 3 else None
        if k == "call": e = ch[-1] if c > 1 else ch[0] + 2
        elif k == "idx": e = ch[1]
        elif k in ("bin", "un"): e = ch[-1]
        st.append(e); out.append(x[:3] + ([x[3], e] if len(x) > 3 else []))
    return out

EXPR = {"lit", "bool", "id", "un", "bin", "call", "mem", "idx", "slit", "tup", "tidx", "arr", "rep", "cast", "new", "par"}
def judge(case, offs, size, r, spans):
    """(key, what, expected, observed) for each disagreement"""
    a = r.get("ast", {})
    if "panic" in a or "crash" in r: return [("panic", "the parser panicked", None, a or r)]
    if case["ok"] != a["ok"]:
        return [("accept" if case["ok"] else "reject", "a program of the grammar is reported" if case["ok"] else "a token sequence outside the grammar is accepted", case["ok"], a["diag"] or "no diagnostic")]
    if not case["ok"]:
        for d in a["diag"]:
            if not (0 <= d[2] <= d[3] <= size): return [("located", "a parse diagnostic lies outside the file", size, d)]
        return [("items", "a rejected file still has items", 0, a["items"])] if a["items"] else []
    w = want_nodes(case["n"], offs); got = a["n"]; out = []
    if shape(got) != shape(w):
        if case["alt"] and shape(got) == shape(want_nodes(case["alt"], offs)):
            out.append(("and-or-one-tier", "`&&` does not bind tighter than `||`", shape(w), shape(got))); w = want_nodes(case["alt"], offs)
        else:
            j = next((j for j, (p, q) in enumerate(zip(shape(got), shape(w))) if p != q), min(len(got), len(w)))
            return [("tree", "the syntax tree is not that of the derivation", shape(w)[max(0, j - 3):j + 4], shape(got)[max(0, j - 3):j + 4])]
    if spans and got != w:
        q = quirk_ends(w); seen = set()
        for g, x, y in zip(got, w, q):
            if g == x: continue
            if g[0] in EXPR and g == y: seen.add("call-index-end"); continue
            return [("span", "the range of a %s is not its source text" % g[0], x, g)]
        if seen: out.append(("call-index-end", "the range of a call or index access leaves out its closing delimiter", None, None))
    return out

def run(pid, rep):
    binp = vt.build("front"); T = vt.THOROUGH; run_ = vt.TlcRun(); parts = []
    def part(name, f):
        n0 = len(run_.cases); f(); parts.append((name, n0, len(run_.cases)))
    if pid == "C11":
        k = 7 if T else 5
        for name, al, n in (("operators", '{"x", "+", "*", "==", "&&", "||", "|", "as", "felt"}', k if T else 5), ("unary", '{"x", "-", "!", "*", "(", ")", "."}', k),
                            ("postfix", '{"x", "1", "(", ")", "[", "]", ".", ","}', k), ("mixed", '{"x", "-", "<", "%", "^", "&&", "[", "]", "as", "u32"}', 5 if T else 4)):
            part("all " + name, lambda: vt.tlc("Grammar", "Grammar_bfs.cfg", {"Alphabet": al, "MaxLen": str(min(n, 6))}, run=run_, workers=8, timeout=2400))
        for al, n in (('{"x"}', 4 if T else 3), ('{"x", "neg", "cast", "par", "call", "idx"}' if T else '{"neg", "cast", "sum"}', 2), ('{"x", "neg", "not", "par", "sum", "cast", "mem", "idx", "call", "tidx", "slit", "arr", "ncast", "call2"}', 1)):
            part("chains of %d" % n, lambda: vt.tlc("Grammar", "Grammar_bfs.cfg", {"Mode": '"chains"', "Alphabet": al, "MaxLen": str(n)}, run=run_, workers=8, timeout=2400))
        part("derived", lambda: vt.tlc("Grammar", "Grammar_sim.cfg", {"Fuel": "40"}, mode="sim", num=1500 if T else 120, depth=2000, run=run_, procs=8, timeout=2400))
    else:
        for fr, al, n in (("stmt", '{"if", "x", "(", ")", "{", "}", "=", ";", "else"}', 5), ("stmt", '{"for", "let", "(", ")", ";", "x", "=", "{", "}"}', 5), ("item", '{"use", "m", "::", "{", "}", ",", ";"}', 7 if T else 5),
                          ("item", '{"struct", "P", "{", "}", ":", "felt", ","}', 7 if T else 5), ("item", '{"fn", "f", "(", ")", "{", "}", ":", ",", "->"}', 6 if T else 5),
                          ("type", '{"felt", "(", ")", "[", "]", ";", "3", ",", "*"}'.replace('"3"', '"7"'), 6 if T else 5), ("expr", '{"P", "x", "{", "}", ":", ",", "1", "new", "[", "]"}', 5 if T else 4)):
            part("all " + fr, lambda: vt.tlc("Grammar", "Grammar_bfs.cfg", {"Alphabet": al, "MaxLen": str(n), "Frame": '"%s"' % fr}, run=run_, workers=8, timeout=2400))
        part("derived", lambda: vt.tlc("Grammar", "Grammar_sim.cfg", {"Fuel": "45"}, mode="sim", num=1500 if T else 100, depth=2000, run=run_, procs=8, timeout=2400))
        for fr in ("expr", "stmt", "type"):
            part("deep", lambda: vt.tlc("Grammar", "Grammar_sim.cfg", {"Fuel": "0", "Mode": '"deep"', "MaxLen": "30" if T else "22", "Frame": '"%s"' % fr}, mode="sim", num=100 if T else 25, depth=60, run=run_, procs=4, timeout=2400))
        part("mutated", lambda: vt.tlc("Grammar", "Grammar_sim.cfg", {"Fuel": "25", "Mode": '"mutate"'}, mode="sim", num=1500 if T else 130, depth=2000, run=run_, procs=8, timeout=2400))
    rep.add_run(run_)
    cases = []; meta = []
    for name, a, b in parts:
        for c in run_.cases[a:b]:
            if pid == "C11" and not c["ok"]: continue      # what is not an expression is C12's business
            rng = random.Random(zlib.crc32(json.dumps(c["toks"]).encode()) + vt.SEED)
            t, offs = layout(c["toks"], rng)
            cases.append({"t": t, "want": ["ast"]}); meta.append((name, c, offs))
    for (name, c, offs), h, r in zip(meta, cases, vt.run_cases(binp, "parse", cases, timeout=1500 if T else 120)):
        rep.count(name); 
        if name in ("derived", "mutated"): rep.sample(h["t"])
        for key, what, e, o in judge(c, offs, len(h["t"].encode()), r or {"crash": "no answer"}, pid == "C11"):
            if pid == "C12" and key in ("and-or-one-tier", "call-index-end"): continue
            rep.bad(key, what, {"mods": [["main", h["t"]]], "toks": c["toks"]}, e, o)
def check(pid, rep): run(pid, rep)
