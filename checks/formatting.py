"""C13, C14: programs of Grammar.tla / Formatting.tla, formatted by the real formatter."""
import json, random, zlib
from collections import Counter
import vt
from grammar import layout, want_nodes, shape, clash

BREAK = ["", " ", "\n", "\n\n", "  ", "\r\n", "\t"]
DECO = ["", " a comment", "/ docs", " fn x() { let y = 1; }", " // twice", " é ∀", "\ttab", " trailing  ", "/", "!", " if (x) {} ;", "~*/ /*", " 'q' \"s\""]
def text(i, rng): return "//" + rng.choice([" ", ""]) + "c%d" % i + rng.choice(DECO)

def render(toks, cm, rng):
    """Program text with the comments in their gaps; also the comments' texts."""
    out = []; texts = []; prev = None
    style = rng.random()
    def sep():
        if style < .3: return " "
        if style < .6: return rng.choice(["\n", " ", "\n  "])
        return rng.choice(BREAK)
    for i in range(len(toks) + 1):
        here = [c for c in cm if c["g"] == i]
        s = sep() if 0 < i < len(toks) else rng.choice(["", "\n", " "])
        if here:
            for c in here:
                t = text(len(texts) + 1, rng) if c["tx"] == len(texts) + 1 else texts[c["tx"] - 1].rstrip("\r")
                if c["eol"]: lead = rng.choice(["", " ", "  "]) if prev != "/" else " "
                else: lead = ("" if not "".join(out[-1:]) or out[-1].endswith("\n") else "\n") + rng.choice(["", "", "    ", "\n  "])
                nl = rng.choice(["\n", "\n", "\n", "\n\n", "\r\n"])
                out.append(lead + t + nl); texts.append(t + ("\r" if nl == "\r\n" else ""))
            if i == len(toks) and rng.random() < .3:      # the file may end with the comment itself
                out[-1] = out[-1].rstrip("\r\n"); texts[-1] = texts[-1].rstrip("\r")
            s = rng.choice(["", "    ", "\n"]) if out[-1].endswith("\n") else ""
        elif prev is not None and i < len(toks):
            if s == "" and clash(prev, toks[i]): s = " "
        out.append(s)
        if i < len(toks): out.append(toks[i]); prev = toks[i]
    return "".join(out), texts

def comments(src):
    """(start, end, text) of the comments of a source text (the language has no strings)."""
    b = src.encode(); o = []; i = 0
    while True:
        i = b.find(b"//", i)
        if i < 0: return o
        j = b.find(b"\n", i); j = len(b) if j < 0 else j
        o.append((i, j, b[i:j].decode())); i = j

STM = {"let", "const", "asg", "ret", "es", "if", "blk", "loop", "while", "for", "break", "continue"}
def lines(n):
    """Byte ranges of items, struct fields and statements of blocks, in source order (Formatting!Flat)."""
    st = []
    for x in n:
        k, c = x[0], x[2]; ch = st[len(st) - c:] if c else []
        if c: del st[len(st) - c:]
        span = (x[3], x[4]) if len(x) > 3 else None
        if k == "mod": sub = [r for y in ch for r in y["own"]]
        elif k == "struct": sub = [[(ch[q][ "span"][0], ch[q + 1]["span"][1])] for q in range(1, c, 2)]
        elif k in STM or k == "fn":
            sub = []
            for y in ch:
                if y["k"] in STM: sub += y["own"] if k in ("fn", "blk") else y["sub"]
        else: sub = []
        st.append({"k": k, "span": span, "sub": sub, "own": [[span] + [z for s in sub for z in s]]})
    return [z for s in st[-1]["sub"] for z in s] if st else []

def bad_fmt(c, r, cfgs, unparsed=False):
    out = []
    if "crash" in r or "fmt" not in r: return [("panic", "formatting crashed", None, r)]
    for f, g in zip(r["fmt"], cfgs):
        if "panic" in f: return [("panic", "formatting panicked", None, f["panic"])]
        a = f["ast"]
        if unparsed: continue
        if not a["ok"]: out.append(("unparsable", "the formatted program does not parse", None, {"cfg": g, "text": f["a"], "diag": a["diag"][:2]})); break
        got = shape(a["n"])
        if got != c["want"]:
            j = next((j for j, (p, q) in enumerate(zip(got, c["want"])) if p != q), min(len(got), len(c["want"])))
            out.append(("tree", "formatting changes the syntax tree", c["want"][max(0, j - 3):j + 4], {"cfg": g, "text": f["a"], "tree": got[max(0, j - 3):j + 4]})); break
        if not f["again"]: out.append(("again", "formatting again changes the text", f["a"], {"cfg": g, "text": f["b"]})); break
    return out

def bad_comments(c, r, cfgs):
    if "crash" in r or "fmt" not in r: return [("panic", "formatting crashed", None, r)]
    for f, g in zip(r["fmt"], cfgs):
        if "panic" in f: return [("panic", "formatting panicked", None, f["panic"])]
        got = comments(f["a"]); obs = {"cfg": g, "text": f["a"]}
        gt = [t for _, _, t in got]
        if gt != c["texts"]:
            cw, cg = Counter(c["texts"]), Counter(gt); missing = cw - cg; extra = [t for t in gt if t not in cw]
            what = "lost" if missing else "text" if extra else "duplicated" if len(gt) > len(c["texts"]) else "order"
            return [(what, {"lost": "a comment is dropped or altered", "text": "an unknown comment appears", "duplicated": "a comment appears twice", "order": "comments change order"}[what], c["texts"], obs)]
        if not f["ast"]["ok"]: return []         # C13's business
        ls = lines(f["ast"]["n"])
        if len(ls) != c["nl"]: return []
        for i, x in enumerate(c["cm"]):
            s, e, t = got[i]
            for q in x["bf"]:
                if ls[q - 1][1] > s: return [("side", "a comment moves ahead of a statement, field or item it stood behind", t, obs)]
            for q in x["af"]:
                if ls[q - 1][0] < e: return [("side", "a comment moves behind a statement, field or item it stood ahead of", t, obs)]
    return []

def run(pid, rep):
    binp = vt.build("front"); T = vt.THOROUGH; run_ = vt.TlcRun(); parts = []
    def part(name, f):
        n0 = len(run_.cases); f(); parts.append((name, n0, len(run_.cases)))
    if pid == "C13":
        for fr, al, n in (("expr", '{"x", "(", ")", ",", "-", ".", "1"}', 7 if T else 5), ("expr", '{"x", "+", "(", ")", "[", "]", "as", "felt"}', 6 if T else 5),
                          ("stmt", '{"if", "x", "(", ")", "{", "}", ";", "else"}', 7 if T else 5), ("stmt", '{"while", "loop", "x", "(", ")", "{", "}", ";", "="}', 6 if T else 5),
                          ("stmt", '{"let", "const", "A", ":", "felt", "=", "1", ";", "*"}', 7 if T else 5), ("type", '{"felt", "(", ")", ",", "*"}', 8 if T else 6),
                          ("type", '{"felt", "(", ")", "[", "]", ";", "7", ","}', 7 if T else 5), ("item", '{"use", "m", "::", "{", "}", ",", ";"}', 8 if T else 6),
                          ("item", '{"struct", "P", "{", "}", ":", ",", "fn", "f", "(", ")"}', 7 if T else 5)):
            part("all " + fr, lambda: vt.tlc("Grammar", "Grammar_bfs.cfg", {"Alphabet": al, "MaxLen": str(n), "Frame": '"%s"' % fr}, run=run_, workers=8, timeout=2400))
        for al, n in (('{"x"}', 3), ('{"x", "neg", "not", "par", "sum", "cast", "mem", "idx", "call", "tidx", "slit", "arr", "ncast", "call2"}', 1)):
            part("chains", lambda: vt.tlc("Grammar", "Grammar_bfs.cfg", {"Mode": '"chains"', "Alphabet": al, "MaxLen": str(n)}, run=run_, workers=8, timeout=2400))
    part("derived", lambda: vt.tlc("Formatting", "Formatting_sim.cfg", {"Fuel": "60" if pid == "C14" else "45", "MaxC": "6" if pid == "C14" else "2"}, mode="sim", num=2500 if T else 220, depth=2000, run=run_, procs=8, timeout=2400))
    if pid == "C14":
        part("small", lambda: vt.tlc("Formatting", "Formatting_sim.cfg", {"Fuel": "12", "MaxC": "4"}, mode="sim", num=6000 if T else 500, depth=2000, run=run_, procs=8, timeout=2400))
    rep.add_run(run_)
    cases = []; meta = []; W = [0, 1, 12, 25, 40, 60, 100]; I = [0, 1, 2, 4, 8]
    for name, a, b in parts:
        for c in run_.cases[a:b]:
            x = c.get("x", c)
            rng = random.Random(zlib.crc32(json.dumps(x["toks"]).encode()) + vt.SEED)
            if "cfg" in c: cfgs = c["cfg"]; t, texts = render(x["toks"], x["cm"], rng)
            else:
                if not x["ok"] and rng.random() > .02: continue
                t, _ = layout(x["toks"], rng, plain=x["ok"]); texts = []
                cfgs = [{"width": rng.choice(W), "indent": rng.choice(I)} for _ in range(2)]
            # `&&` and `||` share a level in the parser: C11's finding, not the formatter's
            alts = [shape(want_nodes(n, None, False)) for n in [x["n"], x.get("alt")] if n]
            cases.append({"t": t, "want": ["fmt", "ast"], "fmts": cfgs})
            meta.append((name, {"toks": x["toks"], "alts": alts, "texts": texts, "nl": x.get("nl"), "cm": x.get("cm", []), "ok": x.get("ok", True)}, cfgs))
    for (name, c, cfgs), h, r in zip(meta, cases, vt.run_cases(binp, "parse", cases, timeout=1500 if T else 120)):
        rep.count(name); rep.sample(h["t"])
        r = r or {"crash": "no answer"}
        if c["ok"] and not ("ast" in r and r["ast"].get("ok")): continue       # C12's business
        c["want"] = shape(r["ast"]["n"]) if c["ok"] else None
        if c["ok"] and c["want"] not in c["alts"] and not any(t == "&&" for t in c["toks"]): continue   # C11's business
        if pid == "C14": bad = bad_comments(c, r, cfgs)
        else:
            bad = bad_fmt(c, r, cfgs, not c["ok"])
            if not c["ok"]:
                for f, g in zip(r.get("fmt", []), cfgs):
                    if "a" in f and f["a"] != h["t"]: bad.append(("unparsed", "a file that does not parse is changed", h["t"], f["a"])); break
        for key, what, e, o in bad: rep.bad(key, what, {"mods": [["main", h["t"]]], "fmts": cfgs}, e, o)
def check(pid, rep): run(pid, rep)
