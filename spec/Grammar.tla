------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The grammar of Cairo-M, twice over (properties C11 - C14).              *)
(*                                                                         *)
(* 1. A leftmost-derivation machine.  The state is the stack of grammar    *)
(*    symbols still to be produced, the tokens produced so far and the     *)
(*    syntax tree built so far (nodes in post-order, each with its kind,   *)
(*    attribute, number of children and token range).  Every transition    *)
(*    applies one production.                                              *)
(* 2. A reference parser, Prog(doc, s): the documented grammar read as an  *)
(*    ordered-choice (PEG) grammar over token sequences.  It decides which *)
(*    token sequences are programs, and gives their tree.                  *)
(*                                                                         *)
(* ParseInvertsDerivation says that the two agree on every derived         *)
(* program.  Mutated and exhaustively enumerated token sequences are       *)
(* judged by the reference parser alone.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,            \* "derive", "mutate", "strings", "chains" or "deep"
          Fuel,            \* size budget of derivations
          Alphabet, Frame, MaxLen   \* "strings": all sequences over Alphabet up to MaxLen, put into a frame;
                                   \* "deep": MaxLen constructs nested in one another, all closed or one left open;
                                   \* "chains": all chains of MaxLen operators between operands of the forms Alphabet
VARIABLES todo, toks, nodes, fuel, out
vars == <<todo, toks, nodes, fuel, out>>

(* ------------------------------------------------------------------ tokens *)
Vars    == {"x", "y", "foo", "a1"}
Structs == {"P", "Vec"}
Fields  == {"x", "w", "data"}
Prims   == {"felt", "u32", "bool"}
Nums    == {"0", "1", "42", "0x1F", "0b101", "7"}
SufNums == {"3u32", "0x2felt", "9felt"}
BadNums == {"5foo"}
Keys    == {"as", "const", "else", "false", "fn", "if", "let", "new", "return", "struct", "true", "while", "loop", "for", "in", "break", "continue", "use"}
Puncts  == {"!", "&&", "||", "&", "|", "^", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "=", "->", "(", ")", "{", "}", "[", "]", ",", ";", ":", "::", "."}
Ids     == Vars \cup Structs \cup Fields \cup Prims \cup {"f", "g", "m", "n", "A", "B"}
IsId(t) == t \in Ids
IsNum(t) == t \in Nums \cup SufNums \cup BadNums
AllToks == Ids \cup Nums \cup SufNums \cup BadNums \cup Keys \cup Puncts

(* ---------------------------------------------------------- the ops by level
   1 is the loosest.  The documentation gives `||` and `&&` a level each; with
   doc = FALSE they share one (what the parser's own snapshots pin).          *)
Ops(doc, p) == CASE p = 1 -> IF doc THEN {"||"} ELSE {"||", "&&"}
                 [] p = 2 -> IF doc THEN {"&&"} ELSE {}
                 [] p = 3 -> {"&", "|", "^"}
                 [] p = 4 -> {"==", "!=", "<", ">", "<=", ">="}
                 [] p = 5 -> {"+", "-"}
                 [] p = 6 -> {"*", "/", "%"}
BinOps == {"||", "&&", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}
\* after `if (e)` these continue the condition; anything else starts the body, also what might do either
ContOps == (BinOps \ {"-"}) \cup {"as", "."}

(* ======================================================= reference parser ==
   Results: [i, n]: the next position (0: no match) and the nodes, post-order. *)
Fail == [i |-> 0, n |-> <<>>]
Ok(i, n) == [i |-> i, n |-> n]
T(s, i) == IF i <= Len(s) THEN s[i] ELSE "EOF"
Nd(k, at, c, a, b) == <<[k |-> k, at |-> at, c |-> c, a |-> a, b |-> b]>>
Leaf(k, s, i) == Ok(i + 1, Nd(k, s[i], 0, i, i + 1))

(* items: sequence of results so far; sep "," *)
RECURSIVE TypeE(_, _, _), TypeList(_, _, _, _), Stars(_, _, _)
Stars(s, a, r) == IF T(s, r.i) = "*" THEN Stars(s, a, Ok(r.i + 1, r.n \o Nd("tp", "", 1, a, r.i + 1))) ELSE r
\* comma-separated types, no trailing comma consumed
TypeList(s, i, alloc, acc) ==
  LET r == TypeE(s, i, alloc) IN
  IF r.i = 0 THEN acc
  ELSE LET x == [i |-> r.i, n |-> acc.n \o r.n, c |-> acc.c + 1] IN
       IF T(s, r.i) = "," THEN LET y == TypeList(s, r.i + 1, alloc, x) IN y ELSE x
TypeE(s, i, alloc) ==
  LET t == T(s, i)
      base == IF IsId(t) THEN Leaf("tn", s, i)
              ELSE IF t = "[" /\ ~alloc THEN
                LET e == TypeE(s, i + 1, FALSE) IN
                IF e.i = 0 \/ T(s, e.i) # ";" \/ T(s, e.i + 1) \notin Nums \/ T(s, e.i + 2) # "]" THEN Fail
                ELSE Ok(e.i + 3, e.n \o Nd("num", s[e.i + 1], 0, e.i + 1, e.i + 2) \o Nd("ta", "", 2, i, e.i + 3))
              ELSE IF t = "(" THEN
                LET l == TypeList(s, i + 1, alloc, [i |-> i + 1, n |-> <<>>, c |-> 0])
                    trail == T(s, l.i) = ","
                    e == IF trail THEN l.i + 1 ELSE l.i
                IN IF T(s, e) # ")" \/ (l.c = 0 /\ trail) THEN Fail
                   ELSE IF l.c = 1 /\ ~trail THEN Ok(e + 1, l.n)
                   ELSE Ok(e + 1, l.n \o Nd("tt", "", l.c, i, e + 1))
              ELSE Fail
  IN IF base.i = 0 THEN Fail
     \* a parenthesised type keeps the range of the type inside
     ELSE Stars(s, base.n[Len(base.n)].a, base)

RECURSIVE Expr(_, _, _), Bin(_, _, _, _), BinRest(_, _, _, _, _), Cast(_, _, _), CastRest(_, _, _), Unary(_, _, _), Post(_, _, _, _),
          Atom(_, _, _), ExprList(_, _, _, _), FieldList(_, _, _, _)
Expr(d, s, i) == Bin(d, s, i, 1)
Bin(d, s, i, p) == IF p = 7 THEN Cast(d, s, i)
                   ELSE LET l == Bin(d, s, i, p + 1) IN IF l.i = 0 THEN Fail ELSE BinRest(d, s, p, i, l)
BinRest(d, s, p, a, l) ==
  IF T(s, l.i) \notin Ops(d, p) THEN l
  ELSE LET r == Bin(d, s, l.i + 1, p + 1) IN
       IF r.i = 0 THEN l ELSE BinRest(d, s, p, a, Ok(r.i, l.n \o r.n \o Nd("bin", s[l.i], 2, a, r.i)))
Cast(d, s, i) == LET l == Unary(d, s, i) IN IF l.i = 0 THEN Fail ELSE CastRest(s, i, l)
CastRest(s, a, l) == IF T(s, l.i) = "as" /\ IsId(T(s, l.i + 1))
                     THEN CastRest(s, a, Ok(l.i + 2, l.n \o Nd("tn", s[l.i + 1], 0, l.i + 1, l.i + 2) \o Nd("cast", "", 2, a, l.i + 2)))
                     ELSE l
Unary(d, s, i) == IF T(s, i) \in {"!", "-"} THEN LET r == Unary(d, s, i + 1) IN IF r.i = 0 THEN Fail ELSE Ok(r.i, r.n \o Nd("un", s[i], 1, i, r.i))
                  ELSE LET a == Atom(d, s, i) IN IF a.i = 0 THEN Fail ELSE Post(d, s, i, a)
\* comma-separated expressions; a trailing comma may follow the last, never stand alone
ExprList(d, s, i, acc) ==
  LET r == Expr(d, s, i) IN
  IF r.i = 0 THEN acc
  ELSE LET x == [i |-> r.i, n |-> acc.n \o r.n, c |-> acc.c + 1] IN
       IF T(s, r.i) = "," THEN ExprList(d, s, r.i + 1, [x EXCEPT !.i = r.i + 1]) ELSE x
\* the rest of a list whose first element is e
ListFrom(d, s, e) == IF T(s, e.i) = "," THEN ExprList(d, s, e.i + 1, [i |-> e.i + 1, n |-> e.n, c |-> 1]) ELSE [i |-> e.i, n |-> e.n, c |-> 1]
Post(d, s, a, l) ==
  LET t == T(s, l.i) j == l.i IN
  IF t = "(" THEN LET r == ExprList(d, s, j + 1, [i |-> j + 1, n |-> <<>>, c |-> 0]) IN
                  IF T(s, r.i) = ")" THEN Post(d, s, a, Ok(r.i + 1, l.n \o r.n \o Nd("call", "", 1 + r.c, a, r.i + 1))) ELSE l
  ELSE IF t = "." /\ T(s, j + 1) \in Nums THEN Post(d, s, a, Ok(j + 2, l.n \o Nd("tidx", s[j + 1], 1, a, j + 2)))
  ELSE IF t = "." /\ IsId(T(s, j + 1)) THEN Post(d, s, a, Ok(j + 2, l.n \o Nd("nm", s[j + 1], 0, j + 1, j + 2) \o Nd("mem", "", 2, a, j + 2)))
  ELSE IF t = "[" THEN LET r == Expr(d, s, j + 1) IN
                  IF r.i > 0 /\ T(s, r.i) = "]" THEN Post(d, s, a, Ok(r.i + 1, l.n \o r.n \o Nd("idx", "", 2, a, r.i + 1))) ELSE l
  ELSE l
FieldList(d, s, i, acc) ==
  IF ~IsId(T(s, i)) \/ T(s, i + 1) # ":" THEN acc
  ELSE LET r == Expr(d, s, i + 2) IN
       IF r.i = 0 THEN acc
       ELSE LET x == [i |-> r.i, n |-> acc.n \o Nd("nm", s[i], 0, i, i + 1) \o r.n, c |-> acc.c + 1] IN
            IF T(s, r.i) = "," THEN FieldList(d, s, r.i + 1, [x EXCEPT !.i = r.i + 1]) ELSE x
Atom(d, s, i) ==
  LET t == T(s, i) IN
  IF IsNum(t) THEN Leaf("lit", s, i)
  ELSE IF t \in {"true", "false"} THEN Leaf("bool", s, i)
  ELSE IF t = "new" THEN
    LET y == TypeE(s, i + 1, TRUE) IN
    IF y.i = 0 \/ T(s, y.i) # "[" THEN Fail
    ELSE LET e == Expr(d, s, y.i + 1) IN
         IF e.i = 0 \/ T(s, e.i) # "]" THEN Fail ELSE Ok(e.i + 1, y.n \o e.n \o Nd("new", "", 2, i, e.i + 1))
  ELSE IF IsId(t) THEN
    LET f == IF T(s, i + 1) = "{" THEN FieldList(d, s, i + 2, [i |-> i + 2, n |-> <<>>, c |-> 0]) ELSE [i |-> 0, n |-> <<>>, c |-> 0] IN
    IF f.i > 0 /\ T(s, f.i) = "}" THEN Ok(f.i + 1, Nd("nm", t, 0, i, i + 1) \o f.n \o Nd("slit", "", 1 + 2 * f.c, i, f.i + 1))
    ELSE Leaf("id", s, i)
  ELSE IF t = "[" THEN
    IF T(s, i + 1) = "]" THEN Ok(i + 2, Nd("arr", "", 0, i, i + 2))
    ELSE LET e == Expr(d, s, i + 1) IN
         IF e.i = 0 THEN Fail
         ELSE IF T(s, e.i) = ";" THEN
                IF T(s, e.i + 1) \in Nums /\ T(s, e.i + 2) = "]"
                THEN Ok(e.i + 3, e.n \o Nd("num", s[e.i + 1], 0, e.i + 1, e.i + 2) \o Nd("rep", "", 2, i, e.i + 3)) ELSE Fail
         ELSE LET l == ListFrom(d, s, e) IN
              IF T(s, l.i) = "]" THEN Ok(l.i + 1, l.n \o Nd("arr", "", l.c, i, l.i + 1)) ELSE Fail
  ELSE IF t = "(" THEN
    IF T(s, i + 1) = ")" THEN Ok(i + 2, Nd("tup", "", 0, i, i + 2))
    ELSE LET e == Expr(d, s, i + 1) IN
         IF e.i = 0 THEN Fail
         ELSE IF T(s, e.i) = ")" THEN Ok(e.i + 1, e.n \o Nd("par", "", 1, i, e.i + 1))
         ELSE IF T(s, e.i) # "," THEN Fail
         ELSE LET l == ListFrom(d, s, e) IN
              IF T(s, l.i) = ")" THEN Ok(l.i + 1, l.n \o Nd("tup", "", l.c, i, l.i + 1)) ELSE Fail
  ELSE Fail

RECURSIVE Pat(_, _), PatList(_, _, _)
PatList(s, i, acc) == LET r == Pat(s, i) IN
  IF r.i = 0 THEN [acc EXCEPT !.i = 0]
  ELSE LET x == [i |-> r.i, n |-> acc.n \o r.n, c |-> acc.c + 1] IN IF T(s, r.i) = "," THEN PatList(s, r.i + 1, x) ELSE x
Pat(s, i) == IF IsId(T(s, i)) THEN Leaf("nm", s, i)
             ELSE IF T(s, i) # "(" THEN Fail
             ELSE LET l == PatList(s, i + 1, [i |-> i + 1, n |-> <<>>, c |-> 0]) IN
                  IF l.i > 0 /\ l.c >= 2 /\ T(s, l.i) = ")" THEN Ok(l.i + 1, l.n \o Nd("pt", "", l.c, 0, 0)) ELSE Fail

\* [: type] = expr, starting at i; c counts the children
Init1(d, s, i) ==
  LET y == IF T(s, i) = ":" THEN TypeE(s, i + 1, FALSE) ELSE Ok(i, <<>>) IN
  IF y.i = 0 \/ T(s, y.i) # "=" THEN [i |-> 0, n |-> <<>>, c |-> 0]
  ELSE LET e == Expr(d, s, y.i + 1) IN [i |-> e.i, n |-> y.n \o e.n, c |-> IF T(s, i) = ":" THEN 2 ELSE 1]
\* let without its `;`
LetHead(d, s, i) == LET p == Pat(s, i + 1) IN
  IF p.i = 0 THEN [i |-> 0, n |-> <<>>, c |-> 0] ELSE LET r == Init1(d, s, p.i) IN [i |-> r.i, n |-> p.n \o r.n, c |-> 1 + r.c]
ConstHead(d, s, i) ==
  IF ~IsId(T(s, i + 1)) THEN [i |-> 0, n |-> <<>>, c |-> 0]
  ELSE LET r == Init1(d, s, i + 2) IN [i |-> r.i, n |-> Nd("nm", s[i + 1], 0, i + 1, i + 2) \o r.n, c |-> 1 + r.c]
\* expr [= expr], without `;`
ExprOrAssign(d, s, i) ==
  LET l == Expr(d, s, i) IN
  IF l.i = 0 THEN [i |-> 0, n |-> <<>>, k |-> "es", c |-> 0]
  ELSE IF T(s, l.i) = "=" THEN LET r == Expr(d, s, l.i + 1) IN
         IF r.i > 0 THEN [i |-> r.i, n |-> l.n \o r.n, k |-> "asg", c |-> 2] ELSE [i |-> l.i, n |-> l.n, k |-> "es", c |-> 1]
  ELSE [i |-> l.i, n |-> l.n, k |-> "es", c |-> 1]
Cond(d, s, i) ==
  LET p == IF T(s, i) = "(" THEN Expr(d, s, i + 1) ELSE Fail IN
  IF p.i > 0 /\ T(s, p.i) = ")" /\ T(s, p.i + 1) \notin ContOps THEN Ok(p.i + 1, p.n) ELSE Expr(d, s, i)

RECURSIVE Stmt(_, _, _), Stmts(_, _, _)
Stmts(d, s, acc) == LET r == Stmt(d, s, acc.i) IN
  IF r.i = 0 THEN acc ELSE Stmts(d, s, [i |-> r.i, n |-> acc.n \o r.n, c |-> acc.c + 1])
Semi(s, i, k, r) == IF r.i > 0 /\ T(s, r.i) = ";" THEN Ok(r.i + 1, r.n \o Nd(k, "", r.c, i, r.i + 1)) ELSE Fail
Stmt(d, s, i) ==
  LET t == T(s, i) IN
  CASE t = "{" -> LET b == Stmts(d, s, [i |-> i + 1, n |-> <<>>, c |-> 0]) IN
                  IF T(s, b.i) = "}" THEN Ok(b.i + 1, b.n \o Nd("blk", "", b.c, i, b.i + 1)) ELSE Fail
    [] t = "if" -> LET c == Cond(d, s, i + 1)
                       b == IF c.i > 0 THEN Stmt(d, s, c.i) ELSE Fail
                       e == IF b.i > 0 /\ T(s, b.i) = "else" THEN Stmt(d, s, b.i + 1) ELSE Fail
                   IN IF b.i = 0 THEN Fail
                      ELSE IF e.i > 0 THEN Ok(e.i, c.n \o b.n \o e.n \o Nd("if", "", 3, i, e.i))
                      ELSE Ok(b.i, c.n \o b.n \o Nd("if", "", 2, i, b.i))
    [] t = "loop" -> LET b == Stmt(d, s, i + 1) IN IF b.i = 0 THEN Fail ELSE Ok(b.i, b.n \o Nd("loop", "", 1, i, b.i))
    [] t = "while" -> LET c == Cond(d, s, i + 1)
                          b == IF c.i > 0 THEN Stmt(d, s, c.i) ELSE Fail
                      IN IF b.i = 0 THEN Fail ELSE Ok(b.i, c.n \o b.n \o Nd("while", "", 2, i, b.i))
    [] t = "for" ->
         IF T(s, i + 1) # "(" THEN Fail
         ELSE LET x == IF T(s, i + 2) = "let" THEN LET h == LetHead(d, s, i + 2) IN Semi(s, i + 2, "let", h)
                       ELSE LET h == ExprOrAssign(d, s, i + 2) IN Semi(s, i + 2, h.k, h)
                  c == IF x.i > 0 THEN Expr(d, s, x.i) ELSE Fail
                  p == IF c.i > 0 /\ T(s, c.i) = ";" THEN ExprOrAssign(d, s, c.i + 1) ELSE [i |-> 0, n |-> <<>>, k |-> "es", c |-> 0]
                  b == IF p.i > 0 /\ T(s, p.i) = ")" THEN Stmt(d, s, p.i + 1) ELSE Fail
              IN IF b.i = 0 THEN Fail
                 ELSE Ok(b.i, x.n \o c.n \o p.n \o Nd(p.k, "", p.c, c.i + 1, p.i) \o b.n \o Nd("for", "", 4, i, b.i))
    [] t \in {"break", "continue"} -> IF T(s, i + 1) = ";" THEN Ok(i + 2, Nd(t, "", 0, i, i + 2)) ELSE Fail
    [] t = "let" -> LET h == LetHead(d, s, i) IN Semi(s, i, "let", h)
    [] t = "const" -> LET h == ConstHead(d, s, i) IN Semi(s, i, "const", h)
    [] t = "return" -> LET e == Expr(d, s, i + 1) IN
                       IF e.i > 0 THEN Semi(s, i, "ret", [i |-> e.i, n |-> e.n, c |-> 1]) ELSE Semi(s, i, "ret", [i |-> i + 1, n |-> <<>>, c |-> 0])
    [] OTHER -> LET h == ExprOrAssign(d, s, i) IN Semi(s, i, h.k, h)

\* name : type, comma-separated, trailing comma allowed after the first
RECURSIVE Typed(_, _, _)
Typed(s, i, acc) ==
  LET y == IF IsId(T(s, i)) /\ T(s, i + 1) = ":" THEN TypeE(s, i + 2, FALSE) ELSE Fail IN
  IF y.i = 0 THEN acc
  ELSE LET x == [i |-> y.i, n |-> acc.n \o Nd("nm", s[i], 0, i, i + 1) \o y.n, c |-> acc.c + 1] IN
       IF T(s, y.i) = "," THEN Typed(s, y.i + 1, [x EXCEPT !.i = y.i + 1]) ELSE x
\* identifiers separated by sep; `trail`: a trailing separator may follow
RECURSIVE Names(_, _, _, _, _)
Names(s, i, sep, trail, acc) ==
  IF ~IsId(T(s, i)) THEN IF acc.c > 0 /\ ~trail THEN [acc EXCEPT !.i = i - 1] ELSE acc
  ELSE LET x == [i |-> i + 1, n |-> acc.n \o Nd("nm", s[i], 0, i, i + 1), c |-> acc.c + 1] IN
       IF T(s, i + 1) = sep THEN Names(s, i + 2, sep, trail, [x EXCEPT !.i = i + 2]) ELSE x
N0(i) == [i |-> i, n |-> <<>>, c |-> 0]
Item(d, s, i) ==
  LET t == T(s, i) IN
  CASE t = "fn" ->
         IF ~IsId(T(s, i + 1)) \/ T(s, i + 2) # "(" THEN Fail
         ELSE LET p == Typed(s, i + 3, N0(i + 3))
                  y == IF T(s, p.i) # ")" THEN Fail
                       ELSE IF T(s, p.i + 1) = "->" THEN TypeE(s, p.i + 2, FALSE) ELSE Ok(p.i + 1, Nd("tt", "", 0, 0, 0))
                  b == IF y.i > 0 /\ T(s, y.i) = "{" THEN Stmts(d, s, N0(y.i + 1)) ELSE N0(0)
              IN IF b.i = 0 \/ T(s, b.i) # "}" THEN Fail
                 ELSE Ok(b.i + 1, Nd("nm", s[i + 1], 0, i + 1, i + 2) \o p.n \o y.n \o b.n \o Nd("fn", ToString(p.c), 2 + 2 * p.c + b.c, i, b.i + 1))
    [] t = "struct" ->
         IF ~IsId(T(s, i + 1)) \/ T(s, i + 2) # "{" THEN Fail
         ELSE LET p == Typed(s, i + 3, N0(i + 3)) IN
              IF T(s, p.i) # "}" THEN Fail ELSE Ok(p.i + 1, Nd("nm", s[i + 1], 0, i + 1, i + 2) \o p.n \o Nd("struct", "", 1 + 2 * p.c, i, p.i + 1))
    [] t = "const" -> LET h == ConstHead(d, s, i) IN Semi(s, i, "const", h)
    [] t = "use" ->
         LET p == Names(s, i + 1, "::", FALSE, N0(i + 1)) IN
         IF p.c = 0 THEN Fail
         ELSE IF T(s, p.i) = ";" THEN Ok(p.i + 1, p.n \o Nd("use", "single", p.c, i, p.i + 1))
         ELSE IF T(s, p.i) # "::" \/ T(s, p.i + 1) # "{" THEN Fail
         ELSE LET l == Names(s, p.i + 2, ",", TRUE, N0(p.i + 2)) IN
              IF T(s, l.i) # "}" \/ T(s, l.i + 1) # ";" THEN Fail
              ELSE Ok(l.i + 2, p.n \o l.n \o Nd("use", "list" \o ToString(p.c), p.c + l.c, i, l.i + 2))
    [] OTHER -> Fail
RECURSIVE Items(_, _, _)
Items(d, s, acc) == LET r == Item(d, s, acc.i) IN
  IF r.i = 0 THEN acc ELSE Items(d, s, [i |-> r.i, n |-> acc.n \o r.n, c |-> acc.c + 1])
Prog(d, s) ==
  LET r == Items(d, s, N0(1)) IN
  IF r.i # Len(s) + 1 THEN [ok |-> FALSE, n |-> <<>>]
  \* an unknown literal suffix is reported even though the rest parses
  ELSE IF \E j \in 1..Len(r.n) : r.n[j].k = "lit" /\ r.n[j].at \in BadNums THEN [ok |-> FALSE, n |-> <<>>]
  ELSE [ok |-> TRUE, n |-> r.n \o Nd("mod", "", r.c, 0, 0)]

(* ======================================================= derivation machine *)
Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
K(v) == [t |-> "tok", v |-> v]
Ks(q) == [j \in 1..Len(q) |-> K(q[j])]
\* reduce: build a node of c children that started at token a (a = 0: the node carries no range)
R(k, at, c, a) == [t |-> "red", k |-> k, at |-> at, c |-> c, a |-> a]
E(p, lp) == [t |-> "E", p |-> p, lp |-> lp]     \* lp: may not begin with "("
NT(t) == [t |-> t]
NTn(t, n) == [t |-> t, n |-> n]
Cat(q) == LET RECURSIVE cc(_)
              cc(j) == IF j > Len(q) THEN <<>> ELSE q[j] \o cc(j + 1)
          IN cc(1)
\* k copies of seq x separated by token sep, and perhaps a trailing sep
SepBy(x, k, sep, trail) == Cat([j \in 1..k |-> IF j < k THEN x \o <<K(sep)>> ELSE x]) \o (IF trail /\ k > 0 THEN <<K(sep)>> ELSE <<>>)
Few(lo, hi) == IF fuel <= 0 THEN lo ELSE Pick(lo..hi)

(* names as leaf nodes *)
Nm(S) == LET v == Pick(S) IN <<K(v), [t |-> "leaf", k |-> "nm", at |-> v]>>
Lf(k, v) == <<K(v), [t |-> "leaf", k |-> k, at |-> v]>>

ExpType(alloc, a) ==
  LET r == Pick(1..100) IN
  IF fuel <= 0 \/ r <= 55 THEN Lf("tn", Pick(Prims \cup {"P", "Vec"}))
  ELSE IF r <= 70 THEN <<[t |-> "Ty", al |-> alloc, nopar |-> TRUE], K("*"), R("tp", "", 1, a)>>
  ELSE IF r <= 80 /\ ~alloc THEN <<K("["), [t |-> "Ty", al |-> FALSE, nopar |-> FALSE], K(";")>> \o Lf("num", Pick(Nums)) \o <<K("]"), R("ta", "", 2, a)>>
  ELSE IF r <= 83 THEN <<K("("), K(")"), R("tt", "", 0, a)>>
  ELSE IF r <= 88 THEN <<K("("), [t |-> "Ty", al |-> alloc, nopar |-> FALSE], K(","), K(")"), R("tt", "", 1, a)>>
  ELSE LET k == Few(2, 3) IN <<K("(")>> \o SepBy(<<[t |-> "Ty", al |-> alloc, nopar |-> FALSE]>>, k, ",", Chance(30)) \o <<K(")"), R("tt", "", k, a)>>
Ty == [t |-> "Ty", al |-> FALSE, nopar |-> FALSE]
TyA == [t |-> "Ty", al |-> TRUE, nopar |-> FALSE]

Xp == E(1, FALSE)
ExpE(x, a) ==
  LET p == x.p lp == x.lp
      atoms == {"num", "num", "id", "idb", "bool"}
      big == {"par", "tup", "arr", "rep", "slit", "new"}
      lvl == {q \in {"b1", "b2", "b3", "b4", "b5", "b6"} : \/ (q = "b1" /\ p <= 1 /\ Chance(40)) \/ (q = "b2" /\ p <= 2 /\ Chance(40)) \/ (q = "b3" /\ p <= 3)
                                                   \/ (q = "b4" /\ p <= 4) \/ (q = "b5" /\ p <= 5) \/ (q = "b6" /\ p <= 6)}
      mid == (IF p <= 7 THEN {"cast"} ELSE {}) \cup (IF p <= 8 THEN {"un"} ELSE {}) \cup {"call", "mem", "tidx", "idx"}
      c == IF fuel <= 0 THEN Pick(atoms) ELSE Pick({"A", "B", "C", "D"})
      k == IF fuel <= 0 THEN c ELSE IF c = "A" \/ (c = "B" /\ lvl = {}) THEN Pick(atoms) ELSE IF c = "B" THEN Pick(lvl) ELSE IF c = "C" THEN Pick(mid)
           ELSE Pick(big \ (IF lp THEN {"par", "tup"} ELSE {}))
      Bn(q) == LET o == Pick(Ops(TRUE, q)) IN <<E(q, lp), K(o), E(q + 1, FALSE), R("bin", o, 2, a)>>
  IN CASE k = "num" -> Lf("lit", Pick(Nums \cup SufNums))
       [] k \in {"id", "idb"} -> Lf("id", Pick(Vars))
       [] k = "bool" -> Lf("bool", Pick({"true", "false"}))
       [] k = "b1" -> Bn(1) [] k = "b2" -> Bn(2) [] k = "b3" -> Bn(3) [] k = "b4" -> Bn(4) [] k = "b5" -> Bn(5) [] k = "b6" -> Bn(6)
       [] k = "cast" -> <<E(7, lp), K("as")>> \o Lf("tn", Pick(Prims)) \o <<R("cast", "", 2, a)>>
       [] k = "un" -> LET o == Pick({"!", "-"}) IN <<K(o), E(8, FALSE), R("un", o, 1, a)>>
       [] k = "call" -> LET n == Few(0, 3) IN <<E(9, lp), K("(")>> \o SepBy(<<Xp>>, n, ",", Chance(20)) \o <<K(")"), R("call", "", 1 + n, a)>>
       [] k = "mem" -> <<E(9, lp), K(".")>> \o Nm(Fields) \o <<R("mem", "", 2, a)>>
       [] k = "tidx" -> LET n == Pick({"0", "1", "7"}) IN <<E(9, lp), K("."), K(n), R("tidx", n, 1, a)>>
       [] k = "idx" -> <<E(9, lp), K("["), Xp, K("]"), R("idx", "", 2, a)>>
       [] k = "par" -> <<K("("), Xp, K(")"), R("par", "", 1, a)>>
       [] k = "tup" -> LET n == Few(0, 3) IN <<K("(")>> \o SepBy(<<Xp>>, n, ",", n = 1 \/ Chance(25)) \o <<K(")"), R("tup", "", n, a)>>
       [] k = "arr" -> LET n == Few(0, 3) IN <<K("[")>> \o SepBy(<<Xp>>, n, ",", Chance(25)) \o <<K("]"), R("arr", "", n, a)>>
       [] k = "rep" -> <<K("["), Xp, K(";")>> \o Lf("num", Pick(Nums)) \o <<K("]"), R("rep", "", 2, a)>>
       [] k = "slit" -> LET n == Few(0, 3) IN Nm(Structs) \o <<K("{")>> \o SepBy(<<NT("Field")>>, n, ",", Chance(25)) \o <<K("}"), R("slit", "", 1 + 2 * n, a)>>
       [] k = "new" -> <<K("new"), TyA, K("["), Xp, K("]"), R("new", "", 2, a)>>

\* a condition: in parentheses, or bare.  A bare one may begin with a parenthesis only if an operator follows it
ExpCond(a) ==
  LET r == Pick(1..10) IN
  IF r <= 5 \/ fuel <= 0 THEN <<K("("), Xp, K(")")>>
  ELSE IF r <= 8 THEN <<E(1, TRUE)>>
  ELSE LET q == Pick(3..6) o == Pick(Ops(TRUE, q) \cap ContOps) IN <<K("("), Xp, K(")"), R("par", "", 1, a), K(o), E(q + 1, FALSE), R("bin", o, 2, a)>>

(* the body of an if, a loop, ...: mostly a block; unbraced bodies begin with a keyword or an identifier.
   closed: an `else` follows, so the body may not end in an `if` without `else` *)
Body(closed) == [t |-> "Body", cl |-> closed, n |-> 1]
Body0 == [t |-> "Body", cl |-> FALSE, n |-> 0]     \* may be an empty block
ExpBody(x, a) == IF Chance(80) \/ fuel <= 0 THEN <<NTn("Block", x.n)>>
                 ELSE IF Chance(60) THEN <<NT("Simple")>> ELSE IF x.cl THEN <<NTn("Block", x.n)>> ELSE <<NT("Compound")>>
Opt(b, q) == IF b THEN q ELSE <<>>
ExpLet(a, semi) == LET y == Chance(45) IN
  <<K("let"), NTn("Pat", 0)>> \o Opt(y, <<K(":"), Ty>>) \o <<K("="), Xp>> \o Opt(semi, <<K(";")>>) \o <<R("let", "", IF y THEN 3 ELSE 2, a)>>
ExpConst(a) == LET y == Chance(45) IN
  <<K("const")>> \o Nm({"A", "B"}) \o Opt(y, <<K(":"), Ty>>) \o <<K("="), Xp, K(";"), R("const", "", IF y THEN 3 ELSE 2, a)>>
\* statements that begin with an identifier
ExpIdStmt(a, semi) == IF Chance(60) THEN <<NT("Place"), K("="), Xp>> \o Opt(semi, <<K(";")>>) \o <<R("asg", "", 2, a)>>
                ELSE <<NT("Place"), K("(")>> \o LET n == Few(0, 2) IN SepBy(<<Xp>>, n, ",", FALSE) \o <<K(")"), R("call", "", 1 + n, a)>> \o Opt(semi, <<K(";")>>) \o <<R("es", "", 1, a)>>
ExpPlace(a) == LET r == Pick(1..10) IN
  IF r <= 6 \/ fuel <= 0 THEN Lf("id", Pick(Vars))
  ELSE IF r <= 8 THEN <<NT("Place"), K(".")>> \o Nm(Fields) \o <<R("mem", "", 2, a)>>
  ELSE <<NT("Place"), K("["), Xp, K("]"), R("idx", "", 2, a)>>
ExpSimple(a) ==
  LET k == Pick({"let", "const", "ret", "ret0", "break", "continue", "id", "id2"}) IN
  CASE k = "let" -> ExpLet(a, TRUE) [] k = "const" -> ExpConst(a)
    [] k = "ret" -> <<K("return"), Xp, K(";"), R("ret", "", 1, a)>>
    [] k = "ret0" -> <<K("return"), K(";"), R("ret", "", 0, a)>>
    [] k \in {"break", "continue"} -> <<K(k), K(";"), R(k, "", 0, a)>>
    [] OTHER -> ExpIdStmt(a, TRUE)
ExpCompound(a) ==
  LET k == Pick({"if", "ife", "loop", "while", "for", "odd"}) IN
  CASE k = "if" -> <<K("if"), NT("Cond"), Body(FALSE), R("if", "", 2, a)>>
    [] k = "ife" -> <<K("if"), NT("Cond"), Body(TRUE), K("else"), IF Chance(40) THEN NT("ElseIf") ELSE Body0, R("if", "", 3, a)>>
    [] k = "loop" -> <<K("loop"), Body0, R("loop", "", 1, a)>>
    [] k = "while" -> <<K("while"), NT("Cond"), Body(FALSE), R("while", "", 2, a)>>
    \* after a condition in parentheses the body may begin with what could also go on with an expression
    [] k = "odd" -> LET w == Pick({"if", "while"}) IN <<K(w), K("("), Xp, K(")"), NT("Odd"), R(w, "", 2, a)>>
    [] k = "for" -> <<K("for"), K("("), NT("ForInit"), Xp, K(";"), NT("ForStep"), K(")"), Body0, R("for", "", 4, a)>>
ExpStmt(a) ==
  LET r == Pick(1..100) IN
  IF fuel <= 0 THEN <<K("return"), K(";"), R("ret", "", 0, a)>>
  ELSE IF r <= 50 THEN ExpSimple(a)
  ELSE IF r <= 80 THEN ExpCompound(a)
  ELSE IF r <= 88 THEN <<NTn("Block", 0)>>
  ELSE <<Xp, K(";"), R("es", "", 1, a)>>
ExpItem(a) ==
  LET k == Pick({"fn", "fn2", "fn3", "struct", "const", "use"}) IN
  CASE k \in {"fn", "fn2", "fn3"} ->
         LET p == Few(0, 3) b == Few(1, 4) y == Chance(60) IN
         <<K("fn")>> \o Nm({"f", "g"}) \o <<K("(")>> \o SepBy(<<NT("Param")>>, p, ",", Chance(20)) \o <<K(")")>>
         \o (IF y THEN <<K("->"), Ty>> ELSE <<R("tt", "", 0, 0)>>) \o <<K("{")>> \o [j \in 1..b |-> NT("Stmt")] \o <<K("}"), R("fn", ToString(p), 2 + 2 * p + b, a)>>
    [] k = "struct" -> LET p == Few(0, 3) IN
         <<K("struct")>> \o Nm(Structs) \o <<K("{")>> \o SepBy(<<NT("Param")>>, p, ",", Chance(40)) \o <<K("}"), R("struct", "", 1 + 2 * p, a)>>
    [] k = "const" -> ExpConst(a)
    [] k = "use" ->
         LET p == Pick(1..2) n == Pick(1..3) IN
         IF Chance(50) THEN <<K("use")>> \o SepBy(<<NT("PathId")>>, p + 1, "::", FALSE) \o <<K(";"), R("use", "single", p + 1, a)>>
         ELSE <<K("use")>> \o SepBy(<<NT("PathId")>>, p, "::", FALSE) \o <<K("::"), K("{")>> \o SepBy(<<NT("PathId")>>, n, ",", Chance(30))
              \o <<K("}"), K(";"), R("use", "list" \o ToString(p), p + n, a)>>
\* one production step
Exp(x, a) ==
  CASE x.t = "E" -> ExpE(x, a)
    [] x.t = "Ty" -> IF x.nopar THEN Lf("tn", Pick(Prims \cup {"P"})) ELSE ExpType(x.al, a)
    [] x.t = "Field" -> Nm(Fields) \o <<K(":"), Xp>>
    [] x.t = "Param" -> Nm(Vars) \o <<K(":"), Ty>>
    [] x.t = "PathId" -> Nm({"m", "n", "f", "P"})
    [] x.t = "Pat" -> IF x.n >= 2 \/ fuel <= 0 \/ Chance(75) THEN Nm(Vars)
                      ELSE LET k == Few(2, 3) IN <<K("(")>> \o SepBy(<<NTn("Pat", x.n + 1)>>, k, ",", FALSE) \o <<K(")"), R("pt", "", k, 0)>>
    [] x.t = "Cond" -> ExpCond(a)
    [] x.t = "Body" -> ExpBody(x, a)
    [] x.t = "Block" -> LET k == Few(IF x.n = 1 THEN 1 ELSE 0, 3) IN <<K("{")>> \o [j \in 1..k |-> NT("Stmt")] \o <<K("}"), R("blk", "", k, a)>>
    [] x.t = "Simple" -> ExpSimple(a)
    [] x.t = "Odd" -> IF Chance(50) THEN <<K("-"), E(8, FALSE), R("un", "-", 1, a), K(";"), R("es", "", 1, a)>>
                      ELSE IF Chance(50) THEN <<K("["), Xp, K("]"), R("arr", "", 1, a), K(";"), R("es", "", 1, a)>>
                      ELSE <<K("("), Xp, K(")"), R("par", "", 1, a), K(";"), R("es", "", 1, a)>>
    [] x.t = "Compound" -> ExpCompound(a)
    [] x.t = "ElseIf" -> <<K("if"), NT("Cond"), NTn("Block", 1), R("if", "", 2, a)>>
    [] x.t = "Place" -> ExpPlace(a)
    [] x.t = "ForInit" -> IF Chance(60) THEN ExpLet(a, TRUE) ELSE ExpIdStmt(a, TRUE)
    [] x.t = "ForStep" -> ExpIdStmt(a, FALSE)
    [] x.t = "Stmt" -> ExpStmt(a)
    [] x.t = "Item" -> ExpItem(a)

Here == Len(toks) + 1
RECURSIVE Flush(_, _, _)
\* tokens and nodes need no choice: they are emitted together
Flush(td, tk, nd) ==
  IF td = <<>> THEN [td |-> td, tk |-> tk, nd |-> nd]
  ELSE LET h == Head(td) IN
       IF h.t = "tok" THEN Flush(Tail(td), Append(tk, h.v), nd)
       ELSE IF h.t = "leaf" THEN Flush(Tail(td), tk, nd \o Nd(h.k, h.at, 0, Len(tk), Len(tk) + 1))
       ELSE IF h.t = "red" THEN Flush(Tail(td), tk, nd \o Nd(h.k, h.at, h.c, h.a, IF h.a = 0 THEN 0 ELSE Len(tk) + 1))
       ELSE [td |-> td, tk |-> tk, nd |-> nd]

\* the tokens that may be put in place of another one
Mutant(s) ==
  LET j == Pick(1..Len(s)) k == Pick({"del", "dup", "ins", "rep", "rep", "swap", "ins"}) v == Pick(AllToks) IN
  CASE k = "del" -> SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
    [] k = "dup" -> SubSeq(s, 1, j) \o SubSeq(s, j, Len(s))
    [] k = "ins" -> SubSeq(s, 1, j - 1) \o <<v>> \o SubSeq(s, j, Len(s))
    [] k = "rep" -> [s EXCEPT ![j] = v]
    [] k = "swap" -> IF j = Len(s) THEN s ELSE [s EXCEPT ![j] = s[j + 1], ![j + 1] = s[j]]

Init == /\ out = <<>> /\ fuel = Fuel /\ nodes = <<>>
        /\ IF Mode \in {"strings", "chains", "deep"} THEN todo = <<>> /\ toks = <<>>
           ELSE \E n \in 1..3 : todo = [j \in 1..n |-> NT("Item")] \o <<R("mod", "", n, 0)>> /\ toks = <<>>
Produce == /\ todo # <<>> /\ Mode \in {"derive", "mutate"}
           /\ LET r == TLCEval(Flush(todo, toks, nodes)) IN
              IF r.td = <<>> THEN todo' = <<>> /\ toks' = r.tk /\ nodes' = r.nd /\ UNCHANGED fuel
              ELSE LET e == TLCEval(Exp(Head(r.td), Len(r.tk) + 1)) IN
                   /\ todo' = e \o Tail(r.td) /\ toks' = r.tk /\ nodes' = r.nd /\ fuel' = fuel - 1
           /\ UNCHANGED out
Extend == /\ Mode = "strings" /\ Len(toks) < MaxLen /\ \E v \in Alphabet : toks' = Append(toks, v)
          /\ UNCHANGED <<todo, nodes, fuel, out>>
\* operands of chains
Form(v) == CASE v = "x" -> <<"x">> [] v = "neg" -> <<"-", "x">> [] v = "not" -> <<"!", "-", "y">> [] v = "par" -> <<"(", "x", ")">> [] v = "sum" -> <<"(", "x", "+", "1", ")">>
             [] v = "cast" -> <<"y", "as", "felt">> [] v = "mem" -> <<"x", ".", "w">> [] v = "idx" -> <<"x", "[", "1", "]">> [] v = "call" -> <<"foo", "(", "x", ",", "1", ")">>
             [] v = "tidx" -> <<"x", ".", "0">> [] v = "slit" -> <<"P", "{", "x", ":", "1", "}">> [] v = "arr" -> <<"[", "x", "]">>
             [] v = "ncast" -> <<"-", "x", "as", "u32">> [] v = "call2" -> <<"x", ".", "foo", "(", ")", "[", "0", "]">> [] OTHER -> <<v>>
\* fuel counts the operators
Chain == /\ Mode = "chains" /\ fuel > -MaxLen
         /\ \E v \in Alphabet : IF toks = <<>> THEN toks' = Form(v) /\ UNCHANGED fuel
                                ELSE \E o \in BinOps : toks' = toks \o <<o>> \o Form(v) /\ fuel' = fuel - 1
         /\ UNCHANGED <<todo, nodes, out>>
\* deep nests: toks holds the opened constructs, nodes their closers (last first), fuel counts them
DeepForms == CASE Frame = "expr" -> <<<<<<"(">>, <<")">>>>, <<<<"[">>, <<"]">>>>, <<<<"foo", "(">>, <<")">>>>, <<<<"P", "{", "x", ":">>, <<"}">>>>, <<<<"-">>, <<>>>>, <<<<"x", "+">>, <<>>>>, <<<<"x", "[">>, <<"]">>>>,
                                      <<<<"(", "x", ",">>, <<")">>>>, <<<<"new", "felt", "[">>, <<"]">>>>, <<<<"[", "x", ",">>, <<"]">>>>, <<<<"(">>, <<")", ".", "w">>>>, <<<<"(">>, <<")", "as", "u32">>>>,
                                      <<<<"x", "==", "(">>, <<")">>>>, <<<<"(">>, <<",", ")">>>>, <<<<"[">>, <<";", "7", "]">>>>, <<<<"foo", "(", "x", ",">>, <<")">>>>>>
               [] Frame = "stmt" -> <<<<<<"{">>, <<"}">>>>, <<<<"if", "(", "x", ")">>, <<>>>>, <<<<"if", "x", "{">>, <<"}">>>>, <<<<"loop", "{">>, <<"}">>>>, <<<<"if", "(", "x", ")", "{", "}", "else">>, <<>>>>,
                                      <<<<"while", "x", "<", "1", "{">>, <<"}">>>>, <<<<"for", "(", "x", "=", "1", ";", "x", ";", "x", "=", "1", ")", "{">>, <<"}">>>>, <<<<"if", "(", "x", ")", "{", "x", ";">>, <<"}">>>>,
                                      <<<<"if", "(", "x", ")", "+", "1", "{">>, <<"}">>>>, <<<<"while", "(", "x", ")">>, <<>>>>>>
               [] OTHER -> <<<<<<"(">>, <<",", ")">>>>, <<<<"[">>, <<";", "7", "]">>>>, <<<<"(", "felt", ",">>, <<")">>>>, <<<<"(">>, <<")">>>>, <<<<>>, <<"*">>>>>>
Core == CASE Frame = "expr" -> <<"x">> [] Frame = "stmt" -> <<"x", "=", "1", ";">> [] OTHER -> <<"felt">>
RECURSIVE Unwind(_)
Unwind(q) == IF q = <<>> THEN <<>> ELSE q[Len(q)] \o Unwind(SubSeq(q, 1, Len(q) - 1))
Nest == /\ Mode = "deep" /\ out = <<>> /\ fuel > -MaxLen
        /\ \E j \in {IF todo = <<>> \/ Chance(20) THEN Pick(1..Len(DeepForms)) ELSE todo[Pick(1..Len(todo))]} :
             toks' = toks \o DeepForms[j][1] /\ nodes' = Append(nodes, DeepForms[j][2]) /\ todo' = Append(todo, j)
        /\ fuel' = fuel - 1 /\ UNCHANGED out
Unnest == /\ Mode = "deep" /\ out = <<>> /\ fuel = -MaxLen
          /\ out' = IF Chance(50) THEN <<toks \o Core \o Unwind(nodes)>>
                     ELSE LET d == Pick(1..Len(nodes)) IN <<toks \o Core \o Unwind(SubSeq(nodes, 1, d - 1) \o SubSeq(nodes, d + 1, Len(nodes)))>>
          /\ UNCHANGED <<todo, toks, nodes, fuel>>
Result(s) ==
  LET p == Prog(TRUE, s) q == IF \E j \in 1..Len(s) : s[j] = "&&" THEN Prog(FALSE, s) ELSE p IN
  [toks |-> s, ok |-> p.ok, n |-> p.n, alt |-> IF q = p THEN <<>> ELSE q.n]
Finish == /\ Mode = "derive" /\ todo = <<>> /\ out = <<>>
          /\ out' = <<Result(toks)>> /\ UNCHANGED <<todo, toks, nodes, fuel>>
\* a few neighbours of the derived program
Mutate == /\ Mode = "mutate" /\ todo = <<>> /\ out = <<>>
          /\ out' = TLCEval([j \in 1..8 |-> Result(TLCEval(LET m == Mutant(toks) IN IF j % 2 = 0 /\ m # <<>> THEN Mutant(m) ELSE m))])
          /\ UNCHANGED <<todo, toks, nodes, fuel>>
Next == Produce \/ Extend \/ Chain \/ Nest \/ Unnest \/ Finish \/ Mutate
Spec == Init /\ [][Next]_vars

Prefix == CASE Frame = "expr" -> <<"fn", "f", "(", ")", "{", "return">>
            [] Frame = "stmt" -> <<"fn", "f", "(", ")", "{">>
            [] Frame = "type" -> <<"fn", "f", "(", "x", ":">>
            [] OTHER -> <<>>
Suffix == CASE Frame = "expr" -> <<";", "}">> [] Frame = "stmt" -> <<"}">> [] Frame = "type" -> <<")", "{", "}">> [] OTHER -> <<>>
EmitCase == IF Mode \in {"strings", "chains"} THEN (Mode = "strings" \/ fuel = -MaxLen) => PrintT("CASE " \o ToJson(Result(Prefix \o toks \o Suffix)))
            ELSE IF Mode = "deep" THEN out # <<>> => PrintT("CASE " \o ToJson(Result(Prefix \o out[1] \o Suffix)))
            ELSE out # <<>> => \A j \in 1..Len(out) : PrintT("CASE " \o ToJson(out[j]))
\* the tree of the derivation is the tree the reference parser finds
ParseInvertsDerivation == (out # <<>> /\ Mode = "derive") => (out[1].ok /\ out[1].n = nodes)
\* ranges nest: a node begins no later than it ends, inside the program
RangesOK == (out # <<>> /\ Mode = "derive") => \A j \in 1..Len(nodes) : LET x == nodes[j] IN x.a <= x.b /\ x.b <= Len(toks) + 1
=============================================================================
