"""C05: ControlFlow.tla behaviours replayed on the control-flow validator."""
import vt
def check(pid, rep):
    binp = vt.build("front")
    run = vt.tlc("ControlFlow", "ControlFlow_sim.cfg", mode="sim", num=2500 if vt.THOROUGH else 400, depth=80, procs=6)
    vt.tlc("ControlFlow", "ControlFlow_deep.cfg" if vt.THOROUGH else "ControlFlow_bfs.cfg", mode="bfs", workers=6, run=run)
    rep.add_run(run)
    cs = []
    for c in run.cases:
        t, offs = vt.render(c["toks"]); cs.append((c, t, offs))
    reqs = [{"mods": [["main", t]], "want": ["diag"]} for _, t, _ in cs]
    for (c, t, offs), q, r in zip(cs, reqs, vt.run_cases(binp, "analyze", reqs)):
        rep.count("programs"); rep.sample(t)
        if "diag" not in (r or {}):
            rep.bad("crash:" + t, "analysis crashed", q, None, r); continue
        for code, exp in (("MissingReturn", [offs[x] for x in c["missing"]]),
                          ("UnreachableCode", [offs[x] for x in c["unreach"]]),
                          ("BreakOutsideLoop", [offs[p] for k, p in c["outside"] if k == "brk"]),
                          ("ContinueOutsideLoop", [offs[p] for k, p in c["outside"] if k == "cont"])):
            got = sorted(x[3] for x in r["diag"] if x[0] == code)
            if got != sorted(exp):
                rep.bad(code + ":" + t, code + " reported at the wrong places", q, sorted(exp), got)
