"""C28: names in type positions and recursive structs (spec/TypeNames.tla) against the real analysis."""
import vt
LIB = "struct A { x: felt }\nfn B(n: felt) -> felt { return n; }\nconst C = 1;\nstruct D { x: A*, y: (A, felt) }\nfn E() -> A { return A { x: 1 }; }\nstruct F { }\nconst G = A { x: 1 };\nconst H: u32 = 4u32;\n"
CODES = ("UndeclaredType", "InvalidTypeDefinition")
def check(pid, rep):
    binp = vt.build("front")
    run = vt.tlc("TypeNames", "TypeNames_bfs.cfg", {"MaxEvents": "3"} if vt.THOROUGH else None, mode="bfs", workers=8)
    vt.tlc("TypeNames", "TypeNames_sim.cfg", mode="sim", num=4000 if vt.THOROUGH else 500, depth=80, procs=6, run=run)
    rep.add_run(run)
    cases = []
    for c in run.cases:
        text, offs = vt.render(c["toks"]); cases.append((c, text, offs))
    reqs = [{"mods": [["main", t], ["lib", LIB]], "want": ["diag", "types"]} for _, t, _ in cases]
    for (c, text, offs), q, r in zip(cases, reqs, vt.run_cases(binp, "analyze", reqs)):
        rep.count("modules"); rep.sample(text)
        if r is None or "crash" in r or "panic" in r: rep.bad("crash:" + text, "the analysis crashes", q, None, r); continue
        if any(x[0] in ("SyntaxError", "ParseError", "UnexpectedToken") for x in r["diag"]): rep.bad("syntax", "a module of the model does not parse", q, None, r["diag"]); continue
        d = [x for x in r["diag"] if x[2] == "main.cm" and x[0] in CODES]
        want = sorted([["UndeclaredType", offs[t]] for t in c["undecl"]] + [["InvalidTypeDefinition", offs[t]] for t in c["rec"]])
        got = sorted([x[0], x[3]] for x in d)
        if want != got: rep.bad("types:" + text, "names of types are not judged by the rules", q, want, got)
