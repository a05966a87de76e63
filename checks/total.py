"""C29: analysis is total - whatever parses is analysed without a panic, in little time, and every diagnostic lies in the
text of its module.  Programs: the derivations of spec/Grammar.tla, well-formed but otherwise arbitrary."""
import json, random, time, zlib
import vt
from grammar import layout
T = vt.THOROUGH
def check(pid, rep):
    binp = vt.build("front"); run = vt.TlcRun()
    for fuel, num in ((12, 60), (30, 60), (70, 40)):
        vt.tlc("Grammar", "Grammar_sim.cfg", {"Fuel": str(fuel)}, mode="sim", num=num * (8 if T else 1), depth=2000, run=run, procs=8, timeout=2400)
    rep.add_run(run); cases = []
    for c in run.cases:
        if not c["ok"]: continue
        toks = c["toks"]
        rng = random.Random(zlib.crc32(json.dumps(toks).encode()) + vt.SEED)
        # few names make more of them meet
        if rng.random() < .6:
            few = rng.sample(["f", "P", "x", "main", "i"], 3); names = {}
            toks = [names.setdefault(t, rng.choice(few)) if t.isidentifier() and t not in KEYWORDS else t for t in toks]
        t, _ = layout(toks, rng); cases.append({"mods": [["main", t], ["m", t], ["lib", t]][:1 + rng.randrange(3)], "want": ["diag"]})
    acyclic = []
    for q, r in zip(cases, vt.run_cases(binp, "analyze", cases, timeout=60)):
        rep.count("programs"); rep.sample(q["mods"][0][1])
        if r is None or "crash" in r or "panic" in r: rep.bad("crash", "the analysis of a program that parses crashes", q, None, r); continue
        texts = {m + ".cm": t.encode() for m, t in q["mods"]}
        cyclic = False
        for x in r["diag"]:
            if x[5].startswith("Cyclic import"): cyclic = True; continue      # belongs to the project, not to a text
            t = texts.get(x[2])
            if t is None or not 0 <= x[3] <= x[4] <= len(t): rep.bad("located", "a diagnostic lies outside its module", q, None, x); break
        if not cyclic: acyclic.append(dict(q, want=["diag", "types"]))
    # the type of every expression and definition on its own, in a fresh database
    for q, r in zip(acyclic, vt.run_cases(binp, "analyze", acyclic, timeout=60)):
        rep.count("typed")
        if r is None or "crash" in r or "panic" in r: rep.bad("crash-types", "asking for types crashes", q, None, r)
KEYWORDS = set("as break const continue else false felt bool u32 fn for if in let loop new return struct true use while".split())
