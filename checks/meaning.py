"""C22 (a program computes what the language says) and C23 (optimisation changes nothing): spec/Meaning.tla
against compiling and running."""
import vt, typing_
T = vt.THOROUGH

PREC = {"||": 1, "&&": 2, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "|": 3, "^": 4, "&": 5, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}
def ty(t):
    k = t["k"]
    if k in ("felt", "u32", "bool"): return k
    if k == "tuple": return "(" + ", ".join(ty(x) for x in t["e"]) + ")"
    if k == "struct": return t["name"]
    if k == "array": return "[%s; %d]" % (ty(t["e"][0]), t["n"])
    return ty(t["e"][0]) + "*"
def u32(v): return v[0] + (v[1] << 16)
def lit(t, v): return str(v) if t == "felt" else "%du32" % u32(v) if t == "u32" else "true" if v else "false"
def atom(e):
    s = ex(e)
    return s if e["k"] in ("lit", "var", "fld", "idx", "call", "tup", "arr", "rep") else "(" + s + ")"
def ex(e):
    k = e["k"]
    if k == "lit": return lit(e["t"], e["v"])
    if k == "var": return e["n"]
    if k == "un": return e["op"] + atom(e["a"])
    if k == "bin": return atom(e["a"]) + " " + e["op"] + " " + atom(e["b"])
    if k == "cast": return atom(e["a"]) + " as felt"
    if k == "call": return e["f"] + "(" + ", ".join(map(ex, e["es"])) + ")"
    if k == "tup": return "(" + ", ".join(map(ex, e["es"])) + ")"
    if k == "str": return e["n"] + " { " + ", ".join("%s: %s" % (f, ex(x)) for f, x in zip(e["f"], e["es"])) + " }"
    if k == "arr": return "[" + ", ".join(map(ex, e["es"])) + "]"
    if k == "rep": return "[" + ex(e["a"]) + "; %d]" % e["n"]
    if k == "new": return "new %s[%d]" % (ty(e["t"]), e["n"])
    if k == "fld": return atom(e["a"]) + "." + e["f"]
    if k == "idx": return atom(e["a"]) + "[" + ex(e["i"]) + "]"
    raise KeyError(k)
def one(s): return st(s, "").strip().rstrip(";")
def blk(ss, ind): return "{\n" + "".join(st(s, ind + "  ") for s in ss) + ind + "}"
def st(s, ind):
    k = s["k"]
    if k == "let": r = "let %s: %s = %s;" % (s["n"], ty(s["t"]), ex(s["e"]))
    elif k == "lett": r = "let (%s) = %s;" % (", ".join(s["ns"]), ex(s["e"]))
    elif k == "set": r = "%s = %s;" % (ex(s["p"]), ex(s["e"]))
    elif k == "if": r = "if %s %s" % (cond(s["e"]), blk(s["then"], ind)) + (" else " + blk(s["else"], ind) if s["else"] else "")
    elif k == "blk": r = blk(s["body"], ind)
    elif k == "while": r = "while %s %s" % (cond(s["cond"][0]), blk(s["body"], ind))
    elif k == "loop": r = "loop " + blk(s["body"], ind)
    elif k == "for": r = "for (%s; %s; %s) %s" % (one(s["init"][0]), ex(s["cond"][0]), one(s["step"][0]), blk(s["body"], ind))
    elif k == "assert": r = "assert(%s);" % ex(s["e"])
    elif k == "expr": r = ex(s["e"]) + ";"
    elif k == "ret": r = "return %s;" % ex(s["e"])
    else: r = k + ";"
    return ind + r + "\n"
def cond(e): return "(" + ex(e) + ")"
def source(c):
    out = []
    for s in c["sts"]: out.append("struct %s { %s }\n" % (s["n"], ", ".join("%s: %s" % (f["n"], ty(f["t"])) for f in s["fs"])))
    for k in c["cs"]: out.append("const %s: %s = %s;\n" % (k["n"], ty(k["t"]), ex(k["e"])))
    for f in c["fns"]: out.append("fn %s(%s) -> %s %s\n" % (f["n"], ", ".join("%s: %s" % (p["n"], ty(p["t"])) for p in f["ps"]), ty(f["r"]), blk(f["body"], "")))
    return "".join(out)
def arg(t, v):
    k = t["k"]
    if k == "felt": return {"n": v}
    if k == "u32": return {"n": u32(v)}
    if k == "bool": return {"b": v}
    return {"l" if k == "tuple" else "s": [arg(x, y) for x, y in zip(t["e"], v)]}
def val(t, v):
    k = t["k"]
    if k == "felt": return {"k": "felt", "v": v}
    if k == "u32": return {"k": "u32", "v": u32(v)}
    if k == "bool": return {"k": "bool", "v": v}
    r = {"k": k, "v": [val(x, y) for x, y in zip(t["e"], v)]}
    if k == "struct": r["f"] = t["f"]
    return r
def rets(t, v):
    """what the runner gives back: the components of a tuple one by one"""
    return [val(x, y) for x, y in zip(t["e"], v)] if t["k"] == "tuple" else [val(t, v)]

BASE = ["call", "setvar", "loop", "conds", "leave", "const", "rec", "assert"]
FEATS = {
    "scalars": BASE + ["bits", "shadow", "cast"],
    "aggregates": BASE + ["shadow", "agg", "copy", "setfld", "setagg", "destr"],
    "pointers": BASE + ["ptr", "ptrval", "setidx", "ptrarg", "alias", "agg", "aggelem", "copy", "setfld", "setagg", "setdeep"],
    "arrays": BASE + ["constarr", "shadow", "array", "setidx", "arrayarg", "alias", "bits"],
    "records": BASE + ["constarr", "shadow", "array", "setidx", "arrayarg", "alias", "agg", "aggelem", "copy", "setfld", "setagg", "setdeep", "destr"],
}
# Programs of the recorded findings: (key, source, argument, result).  The generated programs stay clear of what these are about.
WITNESS = [("array-literal-zero", """fn f(x: felt) -> felt {
    let a: [felt; 3] = [x, x, x];
    let i = x - x;
    return a[i];
}
fn g(x: felt) -> felt {
    let b: [felt; 3] = [0, 1, 2];
    let i = x - x;
    return b[i];
}
fn main(n: felt) -> felt {
    let q = f(n);
    return g(n);
}
""", 5, 0), ("array-literal-zero-loop", """fn main(n: felt) -> felt {
    let s = 0;
    for (let i = 0; i != n; i = i + 1) {
        let b: [felt; 2] = [0, 1];
        let k = i - i;
        s = s + b[k];
        b[k] = 7;
    }
    return s;
}
""", 3, 0), ("array-returned", """fn mk(x: felt) -> [felt; 2] {
    return [x, x + 1];
}
fn id(x: felt, y: felt, z: felt) -> felt {
    let q: [felt; 3] = [x, y, z];
    let k = x - x;
    q[k] = 9;
    return q[k] + y * z + x;
}
fn main(n: felt) -> felt {
    let a = mk(n);
    let b = id(n, n, n);
    let k = n - n;
    return a[k];
}
""", 3, 3)]
def witnesses(pid, rep, binp):
    cs = [{"src": w[1], "calls": [{"args": [{"n": w[2]}]}]} for w in WITNESS]
    for w, c, r in zip(WITNESS, cs, vt.run_cases(binp, "run", cs, timeout=60)):
        rep.count("programs")
        got = [outcome(r[l]["calls"][0], 0) if r and "calls" in (r.get(l) or {}) else ("broken", r) for l in ("none", "std")]
        if pid == "C23" and got[0] != got[1]: rep.bad(w[0], "a program of a recorded finding: optimisation changes the outcome", c, got[0], got[1])
        want = ("value", [{"k": "felt", "v": w[3]}])
        if pid == "C22" and got != [want, want]: rep.bad(w[0], "a program of a recorded finding computes something else", c, want, got)
def generate(num, feats, label, run=None, fns=2, stmts=5):
    return vt.tlc("Meaning", "Meaning.cfg", mode="sim", num=num, depth=60, run=run, label=label, timeout=400,
                  constants={"Feats": "{" + ", ".join('"%s"' % f for f in feats) + "}", "NFns": str(fns), "Stmts": str(stmts)})

def outcome(r, t):
    """observed outcome of one call, as (kind, value)"""
    if "ret" in r: return ("value", r["ret"])
    if "err" in r: return ("error", r["err"])
    return ("broken", r)

def cases(run):
    out = []
    for c in run.cases:
        calls = [k for k in c["calls"] if k["err"] not in ("zero", "fuel")]
        main = c["fns"][-1]
        out.append((c, main, calls, dict(src=source(c), calls=[dict(args=[arg(p["t"], v) for p, v in zip(main["ps"], k["args"])]) for k in calls])))
    return out
def want(main, k): return ("error", "assert") if k["err"] in ("assert", "cast") else ("value", rets(main["r"], k["v"]))

def check(pid, rep):
    binp = vt.build("back")
    run = None
    for label, feats in FEATS.items(): run = generate(2000 if T else 300, feats, label, run)
    rep.add_run(run)
    cs = cases(run)
    res = vt.run_cases(binp, "run", [c[3] for c in cs], timeout=300)
    for (c, main, calls, k), r in zip(cs, res):
        judge(pid, rep, c, main, calls, k, r)
    witnesses(pid, rep, binp)
    if pid == "C22": typed(rep, binp)
def typed(rep, binp):
    """what spec/Typing.tla calls well typed compiles, at both levels"""
    run = vt.tlc("Typing", "Typing_sim.cfg", {"Contexts": '{"let","ann","assign","return","cond","pat","carr"}', "MaxSteps": "5"}, mode="sim", num=4000 if T else 500, depth=30)
    rep.add_run(run); cs = []
    env = "".join(l + "\n" for l in typing_.ENV.splitlines() if not l.startswith("use "))
    for c in run.cases:
        if c["err"]: continue
        body, _ = vt.render(c["pre"] + c["toks"] + c["suf"])
        cs.append({"src": typing_.LIB + env + "fn test(" + typing_.PARAMS + ") -> " + c["ret"].strip() + " {\n    const LK = 3;\n    const LA: [u32; 2] = [3, 4];\n"
                   "    const LS = S { x: 5, y: 6, k: true };\n    const LW = ((1u32, true), S { x: 1, y: 2, k: false });\n"
                   + body + "    loop { }\n}\nfn main(n: felt) -> felt {\n    return n;\n}\n", "calls": [{"args": [{"n": 3}]}]})
    for k, r in zip(cs, vt.run_cases(binp, "run", cs, timeout=300)):
        rep.count("statements compiled")
        for lvl in ("none", "std"):
            o = r and r.get(lvl)
            if o is None: rep.bad("crash", "the compiler or the machine died", k, None, r); break
            if o.get("d") and "Division by zero" in str(o["d"]): continue       # a constant division by zero is refused
            if "calls" not in o: rep.bad("compile-" + lvl + ":" + (o.get("fail") or "panic") + ":" + str(o.get("d", o.get("panic")))[:50], "a well-typed statement is not compiled", k, None, o)
            elif outcome(o["calls"][0], 0) != ("value", [{"k": "felt", "v": 3}]): rep.bad("value-" + lvl, "main does not give its argument back", k, None, o)
def judge(pid, rep, c, main, calls, k, r):
    show = {"src": k["src"], "calls": k["calls"]}
    rep.count("programs")
    if pid == "C22":
        rep.sample(show)
        for lvl in ("none", "std"):
            o = r.get(lvl)
            if o is None: rep.bad("crash", "the compiler or the machine died", show, None, r); break
            if "calls" not in o: rep.bad("compile-" + lvl + ":" + (o.get("fail") or "panic") + ":" + str(o.get("d", o.get("panic")))[:50], "a well-typed program is not compiled", show, None, o); continue
            if not o["json"]: rep.bad("program-json", "the compiled program read back differs", show)
            for x, y in zip(calls, o["calls"]):
                rep.count("runs")
                got = outcome(y, main["r"])
                # a conversion whose result nobody uses may go, and its check with it
                if x["err"] == "cast" and lvl == "std": continue
                if got != want(main, x): rep.bad("value-" + lvl, "the program computes something else (%s)" % lvl, dict(show, call=y, args=x["args"]), want(main, x), got); break
    else:
        rep.sample(show)
        a, b = r.get("none"), r.get("std")
        if a is None or b is None or ("calls" in a) != ("calls" in b): rep.bad("level-compiles", "compiled at one level only", show, a, b); return
        if "calls" not in a: return
        for x, y, z in zip(calls, a["calls"], b["calls"]):
            if x["err"] == "cast": continue
            rep.count("runs")
            if outcome(y, 0) != outcome(z, 0): rep.bad("level-differs", "optimisation changes the outcome", dict(show, args=x["args"]), outcome(y, 0), outcome(z, 0)); break
