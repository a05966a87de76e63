"""C07 (expressions) and C08 (statements): Typing.tla behaviours replayed on the type validator."""
import vt
LIB = """struct P {
    x: u32,
    c: bool,
}
fn i1(x: u32) -> felt {
    return x as felt;
}
fn i2(p: P, n: felt) -> P {
    return p;
}
const IK: u32 = 5;
const IA: [u32; 2] = [1, 2];
const IS = P { x: 1, c: true };
"""
ENV = """use lib::P;
use lib::i1;
use lib::i2;
use lib::IK;
use lib::IA;
use lib::IS;
struct S { x: felt, y: u32, k: bool }
struct Q { s: S, t: (felt, u32), a: [felt; 3] }
struct D { m: [u32; 2] }
const KF = 4;
const KU: u32 = 6;
const KA: [felt; 3] = [1, 2, 3];
const KD: [u32; 2] = [1, 2];
const KS = S { x: 1, y: 2, k: true };
const KT = (1, 2u32);
const KQ = Q { s: S { x: 1, y: 2, k: true }, t: (1, 2), a: [1, 2, 3] };
const KW = ((1u32, true), S { x: 1, y: 2, k: false });
const KE = [S { x: 1, y: 2, k: true }, S { x: 3, y: 4, k: false }];
fn h5(b: bool) { return; }
fn h0() -> felt { return 1; }
fn h1(f: felt) -> u32 { return 1; }
fn h2(u: u32, b: bool) -> S { return S { x: 1, y: u, k: b }; }
fn h3(s: S, t: (felt, u32)) -> [felt; 3] { return [1, 2, 3]; }
fn h4(d: [u32; 2], f: felt) -> u32* { return new u32[4]; }
fn h6(p: felt*, q: Q, u: u32) -> bool { return true; }
"""
PARAMS = "f: felt, g: felt, u: u32, v: u32, b: bool, c: bool, s: S, q: Q, pp: P, t: (felt, u32), w: ((u32, bool), S), a: [felt; 3], d: [u32; 2], e: [S; 2], p: felt*, r: u32*, z: S*, tb: ([felt; 3], felt)"
TYCODES = {"TypeMismatch", "InvalidFunctionCall", "InvalidFieldAccess", "InvalidIndexAccess", "InvalidIndexType", "IndexOutOfBounds",
           "InvalidTupleIndexAccess", "TupleIndexOutOfBounds", "InvalidStructLiteral", "AssignmentToConst", "InvalidAssignmentTarget",
           "ConstArrayByPointer", "MissingReturnValue", "TypeInferenceError", "InvalidTypeDefinition"}

def build_case(c):
    text = ENV + "fn test(" + PARAMS + ") -> " + c["ret"].strip() + " {\n    const LK = 3;\n    const LA: [u32; 2] = [3, 4];\n    const LS = S { x: 5, y: 6, k: true };\n    const LW = ((1u32, true), S { x: 1, y: 2, k: false });\n"
    toks = c["pre"] + c["toks"] + c["suf"]
    body, offs = vt.render(toks)
    base = len(text.encode())
    k = len(c["pre"])
    lo = base + offs[k + 1]
    last = k + len(c["toks"])
    hi = base + offs[last] + len(toks[last - 1])
    text += body + "    loop { }\n}\nfn later() -> bool { return true; }\n"
    pos = lambda t: base + offs[k + t]
    return text, pos, lo, hi

EXPR_CTX = {"let"}
def check(pid, rep):
    binp = vt.build("front")
    n = 5000 if vt.THOROUGH else 900
    ctx = '{"let"}' if pid == "C07" else '{"ann","assign","return","cond","pat","carr"}'
    run = vt.tlc("Typing", "Typing_sim.cfg", {"Contexts": ctx, "MaxSteps": "6" if pid == "C07" else "4"}, mode="sim", num=n, depth=30, procs=6)
    if pid == "C07":      # every rule once on every combination of operand types
        vt.tlc("Typing", "Typing_bfs.cfg", {"Kinds": '{"bin","un","cast","call","mem","idx","tix","new"}'} if vt.THOROUGH else None, mode="bfs", workers=6, run=run)
    else:                 # every statement form on every type of operand
        vt.tlc("Typing", "Typing_bfs.cfg", {"Kinds": "{}", "Contexts": ctx, "Few": "FALSE"}, mode="bfs", workers=6, run=run)
    rep.add_run(run)
    cases = []
    for c in run.cases:
        text, pos, lo, hi = build_case(c)
        cases.append((c, pos, lo, hi, {"mods": [["main", text], ["lib", LIB]], "want": ["diag", "types"]}))
    res = vt.run_cases(binp, "analyze", [x[4] for x in cases])
    for (c, pos, lo, hi, q), r in zip(cases, res):
        rep.count("well-typed" if not c["err"] else "ill-typed")
        rep.sample(" ".join(c["toks"]))
        judge(rep, c, pos, lo, hi, q, r)

def judge(rep, c, pos, lo, hi, q, r):
    stm = " ".join(c["toks"])
    key = "%s:%s:%s" % (c["ctx"], c["ret"], stm)
    if r is None or "crash" in r or "panic" in r:
        rep.bad("crash:" + key, "analysis crashed", q, None, r); return
    errs = [d for d in r["diag"] if d[1] == "Error"]
    stray = [d for d in errs if not (d[2] == "main.cm" and lo <= d[3] < hi)]
    if stray:
        rep.bad("stray:" + key, "an error outside the statement `%s`" % stm, q, [], stray); return
    if not c["err"]:
        if errs:
            rep.bad("false:" + key, "a well-typed statement is rejected: `%s` (returns %s)" % (stm, c["ret"]), q, [], errs); return
        d = {n: t for _, n, t in r["dtypes"]["main"] if n in ("res", "x1", "x2", "x3")}
        if c["ty"] and "res" in d and d.get("res") != c["ty"]:
            rep.bad("type:" + key, "`%s` has the wrong type" % stm, q, c["ty"], d.get("res")); return
        for i, t in enumerate(c["post"]):
            if d.get("x%d" % (i + 1)) != t:
                rep.bad("type:" + key, "`%s` gives x%d the wrong type" % (stm, i + 1), q, c["post"], d); return
        return
    if c["loose"]: ok = bool(errs)
    else:
        # an unsuffixed literal may have taken the other integer type: the error is then on its neighbour
        w = 4 if any(x.isdigit() for x in c["toks"]) else 1
        ok = any(d[0] in codes and d[3] in [pos(t) for t in range(tok, min(tok + w, len(c["toks"]) + 1))] for d in errs for codes, tok in c["err"])
    codes, tok = c["err"][0]
    if not ok:
        rep.bad("missed:" + key, "an ill-typed statement is not reported as such: `%s` (returns %s)" % (stm, c["ret"]), q,
                "%s at token %d `%s`" % (codes, tok, c["toks"][tok - 1]), errs)
