"""C10: the scanner of Lexer.tla against TokenType::lexer."""
import vt
# invalid characters are written as one ASCII character in the specification
MAP = {"~": "é", "`": "→", "#": "😀", "$": "\0", "?": "\u00a0", "NL": "\n", "CR": "\r", "TAB": "\t"}
KW = {"as": "As", "const": "Const", "else": "Else", "false": "False", "fn": "Function", "if": "If", "let": "Let", "new": "New", "return": "Return", "struct": "Struct",
      "true": "True", "while": "While", "loop": "Loop", "for": "For", "in": "In", "break": "Break", "continue": "Continue", "use": "Use"}
OP = {"!": "Not", "&&": "AndAnd", "||": "OrOr", "&": "BitwiseAnd", "|": "BitwiseOr", "^": "BitwiseXor", "==": "EqEq", "!=": "Neq", "<=": "LessEqual", ">=": "GreaterEqual",
      "<": "Less", ">": "Greater", "+": "Plus", "-": "Minus", "*": "Mul", "/": "Div", "%": "Mod", "=": "Eq", "->": "Arrow", "(": "LParen", ")": "RParen", "{": "LBrace",
      "}": "RBrace", "[": "LBrack", "]": "RBrack", ",": "Comma", ";": "Semicolon", ":": "Colon", "::": "ColonColon", ".": "Dot"}
def number(t):
    """(value, suffix) of a number lexeme or None when it is not a well-formed one"""
    radix, body = (16, t[2:]) if t[:2] in ("0x", "0X") else (8, t[2:]) if t[:2] in ("0o", "0O") else (2, t[2:]) if t[:2] in ("0b", "0B") else (10, t)
    suf = next((s for s in ("felt", "u32") if body.endswith(s) and len(body) > len(s)), "")
    d = body[:len(body) - len(suf)]
    ok = "0123456789abcdef"[:radix]
    if not d or any(c.lower() not in ok for c in d): return None
    v = int(d, radix)
    return (str(v), suf or None) if v < 2 ** 64 else None
def want(c):
    s = [MAP.get(x, x) for x in c["s"]]; off = [0]
    for x in s: off.append(off[-1] + len(x.encode()))
    out = []
    for t in c["t"]:
        txt = "".join(s[t["a"] - 1:t["b"] - 1]); a, b = off[t["a"] - 1], off[t["b"] - 1]
        if t["c"] == "err": out.append(["ERR", a, b])
        elif t["c"] == "num":
            v = number(txt); out.append(["LiteralNumber", a, b, v[0], v[1]] if v else ["BADNUM", a, b])
        elif t["c"] == "word": out.append([KW[txt], a, b, txt] if txt in KW else ["Identifier", a, b, txt])
        else: out.append([OP[txt], a, b, txt])
    return "".join(s), out
def norm(t):
    # a number with a suffix that is no type, or that is no number at all: reported by the lexer or by the parser
    if t[0] == "ERR": return ["BADNUM" if t[3] == "num" else "ERR", t[1], t[2]]
    if t[0] == "LiteralNumber" and t[4] not in (None, "felt", "u32"): return ["BADNUM", t[1], t[2]]
    return t
def check(pid, rep):
    binp = vt.build("front"); T = vt.THOROUGH; run = vt.TlcRun()
    for al, n in (('{"&", "|", "=", "!", "<", ">", "-", ":", "/", "NL"}', 5 if T else 4), ('{"0", "1", "9", "x", "b", "o", "F", "u", "_", " "}', 5 if T else 4),
                  ('{"i", "f", "n", "a", "s", "_", "1", " ", "/", "("}', 5 if T else 4), ('{"~", "`", "#", "$", "/", "NL", "CR", "a", "0", "."}', 5 if T else 4)):
        vt.tlc("Lexer", "Lexer_bfs.cfg", {"Alphabet": al, "MaxLen": str(n)}, run=run, workers=8, timeout=2000)
    vt.tlc("Lexer", "Lexer_sim.cfg", {"MaxLen": "40"}, mode="sim", num=6000 if T else 500, depth=200, run=run, procs=8, timeout=2000)
    rep.add_run(run)
    w = [want(c) for c in run.cases]; cases = [{"t": t, "want": ["lex", "ast"]} for t, _ in w]
    for (t, e), r in zip(w, vt.run_cases(binp, "parse", cases, timeout=1500)):
        rep.count("sources"); case = {"mods": [["main", t]]}
        if len(t) > 30: rep.sample(t)
        if r is None or "crash" in r or "panic" in r.get("lex", {}) or "panic" in r.get("ast", {}): rep.bad("panic", "lexing or parsing panicked", case, e, r); continue
        got = [norm(x) for x in r["lex"]["v"]]
        if got != e: rep.bad("tokens", "the tokens are not those of longest-match scanning", case, [x for x in e if x not in got], [x for x in got if x not in e]); continue
        # whatever is no token is reported, inside the file
        bad = [x for x in e if x[0] in ("ERR", "BADNUM")]; d = r["ast"]["diag"]
        if bad and not d: rep.bad("unreported", "a lexical error is not reported", case, bad, d)
        for x in bad:
            if x[0] == "ERR" and not any(y[2] == x[1] and y[3] == x[2] for y in d): rep.bad("unreported", "a character outside the alphabet is not reported where it stands", case, x, d)
        for y in d:
            if not (0 <= y[2] <= y[3] <= len(t.encode())): rep.bad("located", "a diagnostic lies outside the file", case, len(t.encode()), y)
