"""C09: Literals.tla behaviours replayed on the lexer, the semantic index and the literal validator."""
import vt, typing_ as typing
PFX = {2: ("0b", "0B"), 8: ("0o", "0O"), 10: ("", ""), 16: ("0x", "0X")}
def check(pid, rep):
    binp = vt.build("front")
    run = vt.tlc("Literals", "Literals_bfs.cfg", {"MaxWalk": "2"} if vt.THOROUGH else None, mode="bfs", workers=6)
    rep.add_run(run)
    cs = []
    for i, c in enumerate(run.cases):
        ds = "".join("0123456789abcdef"[d] for d in c["digits"])
        if c["upper"]: ds = ds.upper()
        lit = PFX[c["base"]][i % 2] + ds + c["suf"]
        cs.append(case(c, lit, int(ds, c["base"])))
    w = dict(nm="felt-operand", pre=["let", "x", "=", "f", "+"], post=[";"], ret="()", suf="", err=True)
    cs.append(case(w, "2147483648", 2147483648))
    res = vt.run_cases(binp, "analyze", [x[3] for x in cs])
    for (c, lit, pos, q, val), r in zip(cs, res):
        rep.count("rejected" if c["err"] else "accepted")
        stm = " ".join(c["pre"] + [lit] + c["post"])
        rep.sample(stm)
        key = "%s:%s" % (c["nm"], lit)
        if r is None or "crash" in r or "panic" in r:
            rep.bad("crash:" + key, "analysis crashed", q, None, r); continue
        errs = [d for d in r["diag"] if d[1] == "Error"]
        at = [d for d in errs if d[2] == "main.cm" and d[3] == pos]
        if c["err"] and not at:
            rep.bad("missed:" + key, "an out-of-range literal is accepted: `%s` (returns %s)" % (stm, c["ret"]), q, "an error at the literal", errs); continue
        if not c["err"] and errs:
            rep.bad("false:" + key, "a literal in range is rejected: `%s` (returns %s)" % (stm, c["ret"]), q, [], errs); continue
        if not errs:
            got = {s: v for s, v in r["lits"]["main"]}
            if got.get(pos) != str(val):
                rep.bad("value:" + key, "literal %s is read with another value" % lit, q, str(val), got.get(pos))

def case(c, lit, val):
    text = typing.ENV + "fn test(" + typing.PARAMS + ") -> " + c["ret"] + " {\n"
    toks = c["pre"] + [lit] + c["post"]
    body, offs = vt.render(toks)
    pos = len(text) + offs[len(c["pre"]) + 1]
    return c, lit, pos, {"mods": [["main", text + body + "    loop { }\n}\n"], ["lib", typing.LIB]], "want": ["diag", "lits"]}, val
