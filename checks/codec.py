"""C24: instructions, argument texts and values survive their encodings.  spec/InstrCodec.tla, spec/CliArg.tla, spec/Abi.tla."""
import random
import vt
from vm import cells
T = vt.THOROUGH
def hexs(w): return ["0x%x" % x for x in w]
def instructions(rep, binp):
    run = vt.tlc("InstrCodec", "InstrCodec_bfs.cfg", {"MaxCode": "400", "Values": "{0, 1, 2, 4, 255, 32768, 65535, 65536, 1073741824, 2147483645, 2147483646}"} if T else None)
    rep.add_run(run); cs = [{"c": c["w"][0] if c["w"] else None, "x": c["w"][1:]} for c in run.cases]
    for c, k, r in zip(run.cases, cs, vt.run_cases(binp, "codec", cs, timeout=120)):
        rep.count("word sequences"); o = c["out"]; key = str(c["w"][:1])
        if r is None or "crash" in r or "panic" in r: rep.bad("instr-crash:" + key, "decoding words crashes", k, o, r); continue
        if "err" in o:
            if r.get("err") != o["err"] or r.get("jerr") is not True: rep.bad("instr-accepted:" + key, "words that are no instruction are not rejected for what is wrong", k, o, r)
            continue
        rep.sample(o)
        want = {"op": o["op"], "sv": c["w"], "words": o["words"], "code": c["w"][0], "size": o["size"], "by_code": o["size"], "acc": o["acc"], "json": hexs(c["w"]), "back": True, "jerr": False, "again": True}
        bad = [f for f in want if r.get(f) != want[f]]
        if bad: rep.bad("instr-%s:%s" % (bad[0], o["op"]), "an instruction does not survive its encoding", k, {f: want[f] for f in bad}, {f: r.get(f) for f in bad})
# spellings of the tokens of spec/CliArg.tla
NUMS = [("0", 0), ("7", 7), ("-5", -5), ("007", 7), ("-0", 0), ("2147483647", 2**31 - 1), ("4294967296", 2**32), ("9223372036854775807", 2**63 - 1), ("-9223372036854775808", -2**63)]
JUNK = ["x", "-", "--5", "+5", "tru", "fals", "f", "True", "9223372036854775808", "-9223372036854775809", "\"7\"", "'", "1.5", "7u32", "0x1", ":", ";", "é", "\u00a0", "truefalse", "[}"]
def texts(rep, binp):
    run = vt.tlc("CliArg", "CliArg_bfs.cfg", {"Len1": "8"} if T else None); rep.add_run(run)
    cs = []
    for c in run.cases:
        rng = random.Random(str(c["toks"]) + str(vt.SEED)); out, names = "", {}
        def spell(t):
            if t == "7": return rng.choice(NUMS)
            if t == "true": return rng.choice([("true", True), ("false", False)])
            return (rng.choice(JUNK), None) if t == "x" else (t, None)
        vals = []; prev = False
        for t in c["toks"]:
            s, v = spell(t); atom = t not in "()[]{},"
            if t in ("7", "true"): vals.append(v)
            out += rng.choice(["", "", " ", "  ", "\t", "\n"]) if not (prev and atom) else " "
            out += s; prev = atom
        out += rng.choice(["", "", " ", "\n"])
        it = iter(vals)
        def val(v):
            if v["k"] == "a":
                x = next(it); return {"b": x} if isinstance(x, bool) else {"n": x}
            return {v["k"]: [val(y) for y in v["items"]]}
        cs.append((c, {"s": out}, val(c["val"]) if c["ok"] else None))
    for (c, k, want), r in zip(cs, vt.run_cases(binp, "cli", [x[1] for x in cs], timeout=120)):
        rep.count("argument texts")
        if r is None or "crash" in r or "panic" in r: rep.bad("text-crash", "reading an argument crashes", k, want, r)
        elif want is None:
            if r.get("err") != "parse": rep.bad("text-accepted", "a text that is no argument is read", k, "rejected", r)
        elif r.get("ok") != want: rep.bad("text-value", "an argument is read as something else", k, want, r)
        if c["ok"] and len(c["toks"]) > 4: rep.sample(k)
def num(s): return int(s)
def inp(v):
    if v["k"] == "num": return {"n": int(v["s"])}
    if v["k"] == "bool": return {"b": v["b"]}
    if v["k"] == "unit": return {"z": 0}
    return {"l" if v["k"] == "list" else "s": [inp(x) for x in v["e"]]}
def outp(v):
    k = v["k"]
    if k in ("felt", "ptr", "bool"): return {"k": k, "v": v["v"]}
    if k == "u32": return {"k": k, "v": v["v"][0] + (v["v"][1] << 16)}
    if k == "unit": return {"k": k}
    r = {"k": k, "v": [outp(x) for x in v["v"]]}
    if k == "struct": r["f"] = ["f%d" % i for i in range(len(v["v"]))]
    return r
def values(rep, binp):
    run = vt.tlc("Abi", "Abi_sim.cfg", mode="sim", num=6000 if T else 900, depth=30); rep.add_run(run)
    cs = [dict(prog=c["prog"], entry=0, params=c["ps"], returns=c["rs"],
               calls=[dict(args=[inp(v) for v in k["args"]], init=True) for k in c["calls"]] + [dict(args=[], entry="other")]) for c in run.cases]
    for c, k, r in zip(run.cases, cs, vt.run_cases(binp, "abi", cs, timeout=120)):
        if r is None or "crash" in r or "panic" in r: rep.bad("abi-crash", "a call crashes", k, None, r); continue
        if r["back"] is not True: rep.bad("program-json", "a program read back differs", k)
        if r["calls"][-1] != {"err": "entry"}: rep.bad("abi-entry", "a function that does not exist is called", k, "entry", r["calls"][-1])
        for x, q, y in zip(c["calls"], k["calls"], r["calls"]):
            o = x["out"]; rep.count("calls " + (o["err"] or "done")); show = dict(prog=c["prog"], params=c["ps"], returns=c["rs"], args=q["args"])
            if "crash" in y or "panic" in y: rep.bad("abi-panic", "a call panics", show, o, y); continue
            if o["err"]:
                if y.get("err") != o["err"]: rep.bad("abi-accepted", "a call that has to fail", show, o["err"], y)
                continue
            rep.sample(show)
            if "ret" not in y: rep.bad("abi-refused", "a call fails", show, o, y); continue
            want = [outp(v) for v in o["v"]]
            if y["ret"] != want: rep.bad("abi-value", "a value changes on its way", show, want, y["ret"]); continue
            mem = {a: v for a, v in cells(o["mem"]).items() if v} if o["mem"] else {}
            got = {a: v[0] for a, v in y["init"] if any(v)}
            if got != mem: rep.bad("abi-memory", "arguments lie elsewhere in memory", show, mem, got); continue
            b = o["input"]; want = [[0, c["len"]], [b, b + c["a"]], [b + c["a"], b + c["a"] + c["r"]]]
            if y["ranges"] != want: rep.bad("abi-ranges", "the public ranges are not those of program, arguments and results", show, want, y["ranges"])
def check(pid, rep):
    binp = vt.build("back")
    instructions(rep, binp); texts(rep, binp); values(rep, binp)
