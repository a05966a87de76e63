----------------------------- MODULE Formatting -----------------------------
(***************************************************************************)
(* Formatting of programs with comments (properties C13, C14).             *)
(*                                                                         *)
(* A program is derived by the grammar; comments are then dropped into the *)
(* gaps between its tokens, each at the end of a line or on a line of its  *)
(* own, and a formatter configuration is chosen.  What the formatter owes: *)
(* the same tree, a fixed point, every comment once and in order, and no   *)
(* comment moved across a statement, struct field or item.                 *)
(*                                                                         *)
(* The module also gives a placement of the comments (Attach) that keeps   *)
(* to line boundaries, and AttachKeepsSides shows the obligations can      *)
(* always be met by such a placement.                                      *)
(***************************************************************************)
EXTENDS Grammar
CONSTANTS MaxC,            \* number of comments
          Widths, Indents  \* configurations
VARIABLES cm, cfg
fvars == <<todo, toks, nodes, fuel, out, cm, cfg>>

(* ----------------------------------------------------------- tree structure *)
Stm == {"let", "const", "asg", "ret", "es", "if", "blk", "loop", "while", "for", "break", "continue"}
\* sizes of the subtrees
RECURSIVE SumBack(_, _, _), Szs(_, _, _)
SumBack(acc, j, c) == IF c = 0 THEN 0 ELSE acc[j] + SumBack(acc, j - acc[j], c - 1)
Szs(n, j, acc) == IF j > Len(n) THEN acc ELSE Szs(n, j + 1, Append(acc, 1 + SumBack(acc, j - 1, n[j].c)))
RECURSIVE KidsOf(_, _, _)
KidsOf(sz, j, c) == IF c = 0 THEN <<>> ELSE Append(KidsOf(sz, j - sz[j], c - 1), j)
Kids(n, sz, j) == KidsOf(sz, j - 1, n[j].c)
Cats(q) == LET RECURSIVE cc(_)
               cc(j) == IF j > Len(q) THEN <<>> ELSE q[j] \o cc(j + 1)
           IN cc(1)
\* the nodes that have lines of their own: items, struct fields, statements of a block
RECURSIVE Lines(_, _, _)
Lines(n, sz, j) ==
  LET ks == Kids(n, sz, j)
      Rec(k) == [a |-> n[k].a, b |-> n[k].b, sub |-> Lines(n, sz, k)]
  IN CASE n[j].k = "mod" -> [q \in 1..Len(ks) |-> Rec(ks[q])]
       [] n[j].k = "struct" -> [q \in 1..(n[j].c \div 2) |-> [a |-> n[ks[2 * q]].a, b |-> n[ks[2 * q + 1]].b, sub |-> <<>>]]
       [] OTHER -> Cats([q \in 1..Len(ks) |-> IF n[ks[q]].k \notin Stm \/ n[j].k \notin Stm \cup {"fn"} THEN <<>>
                                              ELSE IF n[j].k \in {"fn", "blk"} THEN <<Rec(ks[q])>> ELSE Lines(n, sz, ks[q])])
Tree == TLCEval(LET sz == TLCEval(Szs(nodes, 1, <<>>)) IN Lines(nodes, sz, Len(nodes)))
\* in source order, outer before inner
RECURSIVE Flat(_)
Flat(t) == Cats([q \in 1..Len(t) |-> <<[a |-> t[q].a, b |-> t[q].b]>> \o Flat(t[q].sub)])

(* a comment after g tokens: what stands wholly before and after it *)
IsBefore(x, g) == x.b <= g + 1
IsAfter(x, g)  == x.a >= g + 1

(* ------------------------------------------------------------ a placement *)
\* [side, node]: in front of or behind the node (0: the file has no node)
RECURSIVE Attach(_, _, _)
Attach(t, owner, c) ==
  LET pr == {q \in 1..Len(t) : t[q].a <= c.g}
      p == IF pr = {} THEN 0 ELSE CHOOSE q \in pr : \A r \in pr : r <= q
      nx == IF p < Len(t) THEN p + 1 ELSE 0
  IN IF p > 0 /\ ~IsBefore(t[p], c.g) THEN Attach(t[p].sub, t[p], c)
     ELSE IF p > 0 /\ c.eol THEN [side |-> "T", a |-> t[p].a, b |-> t[p].b]
     ELSE IF nx > 0 /\ t[nx].a = c.g + 1 THEN [side |-> "L", a |-> t[nx].a, b |-> t[nx].b]
     ELSE IF p > 0 THEN [side |-> "T", a |-> t[p].a, b |-> t[p].b]
     ELSE [side |-> "L", a |-> owner.a, b |-> owner.b]
At(t) == [j \in 1..Len(cm) |-> Attach(t, [a |-> 0, b |-> 0], cm[j])]
\* the lines of the formatted text: comments, and where each node opens and closes
RECURSIVE Text(_, _)
Text(t, at) ==
  LET Sel(s, x) == LET RECURSIVE f(_)
                       f(j) == IF j > Len(at) THEN <<>>
                               ELSE IF at[j].side = s /\ at[j].a = x.a /\ at[j].b = x.b THEN <<[e |-> "c", a |-> j, b |-> 0]>> \o f(j + 1) ELSE f(j + 1)
                   IN f(1)
  IN Cats([q \in 1..Len(t) |-> Sel("L", t[q]) \o <<[e |-> "o", a |-> t[q].a, b |-> t[q].b]>> \o Text(t[q].sub, at)
                                \o <<[e |-> "x", a |-> t[q].a, b |-> t[q].b]>> \o Sel("T", t[q])])
AttachKeepsSides ==
  out # <<>> =>
    LET t == Tree
        x == TLCEval(Text(t, TLCEval(At(t))))
        Pos(e, a, b) == CHOOSE j \in 1..Len(x) : x[j] = [e |-> e, a |-> a, b |-> b]
        cs == SelectSeq(x, LAMBDA v : v.e = "c")
        fl == Flat(t)
    IN /\ [j \in 1..Len(cs) |-> cs[j].a] = [j \in 1..Len(cm) |-> j]
       /\ \A j \in 1..Len(cm), q \in 1..Len(fl) :
            /\ IsBefore(fl[q], cm[j].g) => Pos("x", fl[q].a, fl[q].b) < Pos("c", j, 0)
            /\ IsAfter(fl[q], cm[j].g) => Pos("o", fl[q].a, fl[q].b) > Pos("c", j, 0)

(* -------------------------------------------------------------- behaviours *)
FInit == Init /\ cm = <<>> /\ cfg = <<>>
Grow == Produce /\ UNCHANGED <<cm, cfg>>
Done == todo = <<>> /\ out = <<>> /\ nodes # <<>>
Comment == /\ Done /\ Len(cm) < MaxC
           /\ LET lo == IF cm = <<>> THEN 0 ELSE cm[Len(cm)].g IN
              \E e \in BOOLEAN : \E g \in TLCEval(IF Chance(20) THEN {lo} ELSE {Pick(lo..Len(toks))}) :
                 \* a comment at the end of a line needs a token, or nothing, before it
                 /\ e => (g > 0 /\ (cm = <<>> \/ lo < g))
                 \* its text (tx) is its own, or that of an earlier comment: equal comments are still so many comments
                 /\ \E w \in TLCEval(IF cm # <<>> /\ Chance(25) THEN {cm[Pick(1..Len(cm))].tx} ELSE {Len(cm) + 1}) :
                      cm' = Append(cm, [g |-> g, eol |-> e, tx |-> w])
           /\ UNCHANGED <<todo, toks, nodes, fuel, out, cfg>>
IdxSeq(fl, P(_)) == SelectSeq([q \in 1..Len(fl) |-> q], LAMBDA q : P(fl[q]))
Emit == /\ Done
        /\ cfg' = TLCEval([j \in 1..2 |-> [width |-> Pick(Widths), indent |-> Pick(Indents)]])
        /\ out' = LET fl == Flat(Tree) IN
                  <<[toks |-> toks, n |-> nodes, nl |-> Len(fl),
                     cm |-> [j \in 1..Len(cm) |-> [g |-> cm[j].g, eol |-> cm[j].eol, tx |-> cm[j].tx,
                                                   bf |-> IdxSeq(fl, LAMBDA x : IsBefore(x, cm[j].g)), af |-> IdxSeq(fl, LAMBDA x : IsAfter(x, cm[j].g))]]]>>
        /\ UNCHANGED <<todo, toks, nodes, fuel, cm>>
FNext == Grow \/ Comment \/ Emit
FSpec == FInit /\ [][FNext]_fvars
EmitF == out # <<>> => PrintT("CASE " \o ToJson([x |-> out[1], cfg |-> cfg]))
\* the reference parser agrees with the derivation
ParsesBack == out # <<>> => LET p == Prog(TRUE, toks) IN p.ok /\ p.n = nodes
\* at most one of before, after, inside
SidesPartition == out # <<>> => \A j \in 1..Len(cm) : LET fl == Flat(Tree) IN \A q \in 1..Len(fl) : ~(IsBefore(fl[q], cm[j].g) /\ IsAfter(fl[q], cm[j].g))
=============================================================================
