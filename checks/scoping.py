"""C03 (resolution) and C04 (undeclared / unused): Scoping.tla behaviours replayed on the semantic index."""
import vt
LIB = "fn g(a: felt) -> felt {\n    return a;\n}\nconst K = 3;\nstruct P {\n    x: felt,\n}\n"
# spellings of the model's names (injective per row; "_" first exactly for the model's "_" names)
SPELL = [{}, {"x": "tmp_", "y": "a_b", "z": "iff", "_u": "__"}, {"x": "letter", "y": "x", "z": "y", "_u": "_x"},
         {"x": "felts", "y": "u32x", "z": "A", "_u": "_"}, {"x": "q7_", "y": "q7", "z": "qq", "_u": "_q7"},
         {"x": "returned", "y": "return_", "z": "Y0", "_u": "_Y0"}, {"x": "main", "y": "lib", "z": "truex", "_u": "_1"}]

def gen():
    n = 1200 if vt.THOROUGH else 260
    run = vt.tlc("Scoping", "Scoping_sim.cfg", mode="sim", num=n, depth=60, procs=6)
    vt.tlc("Scoping", "Scoping_deep.cfg" if vt.THOROUGH else "Scoping_bfs.cfg", mode="bfs", workers=6, run=run)
    return run

DLIB = "fn a() {\n    return;\n}\nstruct b {\n    x: felt,\n}\nconst c = 1;\n"
DSPELL = [{}, {"a": "x", "b": "x_", "c": "_x", "_e": "_"}, {"a": "felts", "b": "S", "c": "s", "d": "S0"}]
def dups(rep, binp):
    """Repeated declarations: Duplicates.tla."""
    run = vt.tlc("Duplicates", "Duplicates_bfs.cfg", {"MaxEvents": "4", "Holes": '{"blk", "if", "if1", "loop", "while", "for", "for1"}'} if vt.THOROUGH else None, mode="bfs", workers=8)
    vt.tlc("Duplicates", "Duplicates_sim.cfg", mode="sim", num=1500 if vt.THOROUGH else 200, depth=80, procs=6, run=run)
    rep.add_run(run); cases = []
    for i, c in enumerate(run.cases):
        sp = DSPELL[i % len(DSPELL)]; lib = DLIB
        for k, v in sp.items(): lib = lib.replace(" %s " % k, " %s " % v).replace(" %s(" % k, " %s(" % v)
        text, offs = vt.render([sp.get(x, x) for x in c["toks"]]); cases.append((c, text, offs, lib))
    reqs = [{"mods": [["main", t], ["lib", l]], "want": ["diag"]} for _, t, _, l in cases]
    for (c, text, offs, _), q, r in zip(cases, reqs, vt.run_cases(binp, "analyze", reqs)):
        rep.count("duplicates"); rep.sample(text)
        if r is None or "crash" in r or "panic" in r: rep.bad("crash:" + text, "analysis crashed", q, None, r); continue
        got = sorted([x[0], x[3]] for x in r["diag"] if x[2] == "main.cm" and x[0].startswith("Duplicate"))
        want = sorted([k, offs[t]] for k, t in c["dups"])
        if any(x[0] in ("SyntaxError", "ParseError") for x in r["diag"]): rep.bad("dup-syntax", "a program of the model does not parse", q, None, r["diag"]); continue
        if got != want:
            rep.bad("dup:" + text, "repeated declarations differ", q, want, got)

def check(pid, rep):
    binp = vt.build("front")
    if pid == "C04": dups(rep, binp)
    run = gen(); rep.add_run(run)
    cases = []
    for i, c in enumerate(run.cases):
        sp = SPELL[i % len(SPELL)]
        text, offs = vt.render([sp.get(x, x) for x in c["toks"]])
        c["undecl"] = [[sp.get(n, n), t] for n, t in c["undecl"]]
        cases.append((c, text, offs))
    reqs = [{"mods": [["main", t], ["lib", LIB]], "want": ["res"] if pid == "C03" else ["diag"]} for _, t, _ in cases]
    res = vt.run_cases(binp, "analyze", reqs)
    for (c, text, offs), q, r in zip(cases, reqs, res):
        rep.count("programs")
        rep.sample(text)
        if r is None or "crash" in r or "panic" in r:
            rep.bad("crash:" + text, "analysis crashed", q, None, r); continue
        if pid == "C03":
            exp = {offs[t]: (offs[d] if d else -1) for t, d in c["uses"]}
            got = {s: d for s, d in r["res"]["main"]}
            if exp != got:
                diff = {text[k:k + 4] + "@%d" % k: (exp.get(k), got.get(k)) for k in set(exp) | set(got) if exp.get(k) != got.get(k)}
                rep.bad("res:" + text, "identifier resolved to the wrong declaration: %s" % diff, q, exp, got)
        else:
            d = [x for x in r["diag"] if x[2] == "main.cm"]
            unused = sorted(x[3] for x in d if x[0] == "UnusedVariable")
            exp_un = sorted(offs[t] for t in c["unused"])
            if unused != exp_un:
                rep.bad("unused:" + text, "unused declarations differ", q, exp_un, unused)
            und = [x for x in d if x[0] == "UndeclaredVariable"]
            allowed = {}
            for n, t in c["undecl"]: allowed.setdefault(n, set()).add(offs[t])
            seen = {}
            for x in und: seen.setdefault(text[x[3]:x[4]], []).append(x[3])
            if set(seen) != set(allowed) or any(s not in allowed[n] for n in seen for s in seen[n]):
                rep.bad("undecl:" + text, "undeclared names differ", q, {k: sorted(v) for k, v in allowed.items()}, seen)
            ut = sorted(x[3] for x in d if x[0] == "UndeclaredType")
            exp_ut = sorted(offs[t] for t in c["undeclty"])
            if ut != exp_ut:
                rep.bad("undeclty:" + text, "undeclared types differ", q, exp_ut, ut)
