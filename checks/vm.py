"""C20 (what each instruction does) and C21 (segments) : spec/VM.tla against the machine."""
import vt
T = vt.THOROUGH

def cells(f):
    """a TLA+ function from addresses to words, whatever way it was printed"""
    if isinstance(f, list): return {i + 1: w for i, w in enumerate(f)}
    return {int(a): w for a, w in f.items()}

def case_of(c, max_steps):
    prog = [{"c": p["w"][0], "x": p["x"]} if p["o"] not in ("data", "second") else {"w": p["w"]} for p in c["prog"] if p["o"] != "second"]
    r = c["run"]
    mem = cells(c["mem"]) if c["status"] == "done" else {}
    probes = sorted(mem) + [a for a in (0, len(c["prog"]), 4000, 268435455) if a not in mem]
    return dict(prog=prog, entry=r["entry"], off=len(r["args"]) + r["nret"] + 2, args=r["args"], nret=r["nret"], max_steps=max_steps, probes=probes)

def joined(c):
    tr, mt = [], []
    for k, s in enumerate(c["segs"]):
        tr += s["tr"] if k == 0 else s["tr"][1:]
        mt += s["mt"]
    return tr, mt

def pretty(c):
    return {"prog": ["%d: %s %s" % (i, p["o"], p["x"] if p["o"] not in ("data", "second") else p["w"]) for i, p in enumerate(c["prog"])], "run": c["run"]}

def op_at(c, pc): return c["prog"][pc]["o"] if pc < len(c["prog"]) else "outside"
def last_op(c): return op_at(c, c["segs"][-1]["tr"][-1][0])
def div0(c, r):
    """felt division by zero: the arithmetic of the field panics, which a test of the runner pins"""
    return "no inverse" in str(r.get("panic")) and c["status"] == "error" and "operand" in c["run"]["bad"] and c["run"]["at"] == "StoreDivFpFp"
def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i
    return min(len(a), len(b))

def runs():
    run = vt.tlc("VM", "VM_bfs.cfg", constants={"Values": "{0, 1, 2, 255, 65535, 65536, 1073741823, 1073741824, 2147418112, 2147483645, 2147483646}"} if T else None)
    vt.tlc("VM", "VM_sim.cfg", mode="sim", num=4000 if T else 700, depth=100, run=run, timeout=800)
    return run

def check_C20(rep):
    binp = vt.build("back")
    run = runs(); rep.add_run(run)
    cs = [case_of(c, 1 << 30) for c in run.cases]
    res = vt.run_cases(binp, "vm", cs, timeout=120)
    for c, k, r in zip(run.cases, cs, res):
        tr, mt = joined(c)
        rep.count("runs " + c["status"]); rep.count("instructions executed", len(tr) - 1)
        if len(tr) > 9: rep.sample(pretty(c))
        if div0(c, r): rep.count("division by zero"); continue
        if "crash" in r or "panic" in r or "item" in r:
            rep.bad("vm-panic:" + last_op(c), "the machine panicked or refused", pretty(c), c["status"] if c["status"] == "done" else c["run"]["bad"], r); continue
        if c["status"] == "done":
            if r["err"]: rep.bad("vm-err:" + last_op(c), "error on a good run", pretty(c), None, r["err"]); continue
            if len(r["segs"]) != 1: rep.bad("vm-segs", "one segment expected", pretty(c), 1, len(r["segs"])); continue
            s = r["segs"][0]
            if s["tr"] != tr:
                i = first_diff(s["tr"], tr); rep.bad("vm-trace:" + op_at(c, tr[max(0, min(i, len(tr)) - 1)][0]), "registers differ at step %d" % i, pretty(c), tr[:i + 2], s["tr"][:i + 2]); continue
            if s["mt"] != mt:
                i = first_diff(s["mt"], mt); rep.bad("vm-access", "memory accesses differ at entry %d" % i, pretty(c), mt[:i + 2], s["mt"][:i + 2]); continue
            mem = cells(c["mem"])
            want = [(w[0] if not any(w[1:]) else "project") for w in (mem.get(a, [0, 0, 0, 0]) for a in k["probes"])]
            if r["probes"] != want: rep.bad("vm-memory", "final memory differs", pretty(c), dict(zip(k["probes"], want)), dict(zip(k["probes"], r["probes"]))); continue
            if [r["pc"], r["fp"]] != tr[-1]: rep.bad("vm-final", "final registers differ", pretty(c), tr[-1], [r["pc"], r["fp"]])
            if r["final"] != len(c["prog"]): rep.bad("vm-length", "length of the program", pretty(c), len(c["prog"]), r["final"])
            if {a: w for a, w in s["init"]} != cells(c["segs"][0]["init"]): rep.bad("vm-initial", "initial memory differs", pretty(c), cells(c["segs"][0]["init"]), s["init"])
        else:
            if r["err"] not in c["run"]["bad"]: rep.bad("vm-error:" + last_op(c), "error expected", pretty(c), c["run"]["bad"], r["err"] or "no error"); continue
            if r["tr"][:len(tr)] != tr[:len(r["tr"])] or len(r["tr"]) < len(tr) - 1: rep.bad("vm-trace-err", "registers before the error differ", pretty(c), tr, r["tr"]); continue
            if r["mt"][:len(mt)] != mt: rep.bad("vm-access-err", "accesses before the error differ", pretty(c), mt, r["mt"])

def check_C21(rep):
    binp = vt.build("back")
    run = runs(); rep.add_run(run)
    want = [c for c in run.cases if c["status"] == "done" and c["run"]["cut"] < 1000] + [c for c in run.cases if c["status"] == "error" and c["run"]["cut"] < 1000]
    cs = [case_of(c, c["run"]["cut"]) for c in want]
    res = vt.run_cases(binp, "vm", cs, timeout=120)
    for c, k, r in zip(want, cs, res):
        rep.count("runs"); rep.count("segments", len(c["segs"]))
        if len(c["segs"]) > 3: rep.sample(pretty(c))
        if div0(c, r): continue
        if "crash" in r or "panic" in r: rep.bad("seg-panic:" + last_op(c), "the machine panicked", pretty(c), None, r); continue
        done = c["status"] == "done"
        segs = c["segs"] if done else c["segs"][:-1]
        if len(r["segs"]) != len(segs): rep.bad("seg-count", "number of segments", pretty(c), len(segs), len(r["segs"])); continue
        for i, (s, w) in enumerate(zip(r["segs"], segs)):
            key = "seg-first" if i == 0 else "seg-later"
            if s["tr"] != w["tr"]: rep.bad(key + "-trace", "trace of segment %d" % i, pretty(c), w["tr"], s["tr"]); break
            if s["mt"] != w["mt"]: rep.bad(key + "-access", "memory accesses of segment %d" % i, pretty(c), w["mt"], s["mt"]); break
            if {a: x for a, x in s["init"]} != cells(w["init"]): rep.bad(key + "-init", "memory segment %d starts from" % i, pretty(c), cells(w["init"]), s["init"]); break
            if not s["marks"]: rep.bad("seg-marks", "initial cells carry clock or multiplicity", pretty(c)); break
            if s["trb"] != [x for pc, fp in w["tr"] for x in (fp, pc)]: rep.bad("seg-file-trace", "trace file of segment %d" % i, pretty(c), w["tr"], s["trb"]); break
            if s["mtb"] != [x for a, v in w["mt"] for x in [a] + v]: rep.bad("seg-file-access", "memory trace file of segment %d" % i, pretty(c), w["mt"], s["mtb"]); break
        if not done and r["err"] not in c["run"]["bad"]: rep.bad("seg-error", "error expected", pretty(c), c["run"]["bad"], r["err"] or "no error")
        if done and r["err"]: rep.bad("seg-err:" + last_op(c), "error on a good run", pretty(c), None, r["err"])

def check(pid, rep):
    {"C20": check_C20, "C21": check_C21}[pid](rep)
