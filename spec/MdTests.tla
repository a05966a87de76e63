------------------------------ MODULE MdTests ------------------------------
(***************************************************************************)
(* Markdown tests (property C17): a document is a sequence of blocks; each *)
(* block is one transition that changes the section, the configuration in  *)
(* force, or the tests found so far.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sim, MaxBlocks, Titles,     \* Titles: numbers of heading texts; 0 is an empty one
          Fills, Cfgs,                \* kinds of other blocks, good configurations
          Strays                      \* whether Rust code may stand where there is no test in front of it in its section
VARIABLES doc, h, cfg, stray, cur, tests, bad, done
vars == <<doc, h, cfg, stray, cur, tests, bad, done>>
Pick(S) == IF Sim THEN {RandomElement(IF Len(doc) >= 0 THEN S ELSE {})} ELSE S
None == 0
\* the name of a section is that of its headings down to the first missing level
Key(x) == IF x[1] = 0 THEN <<>> ELSE IF x[2] = 0 THEN <<x[1]>> ELSE IF x[3] = 0 THEN <<x[1], x[2]>> ELSE x
Nth(k) == 1 + Cardinality({i \in 1..Len(tests) : tests[i].key = k})
Id == Len(doc) + 1       \* every block has its own content
Put(b) == doc' = Append(doc, b @@ [id |-> Id])
Open == ~done /\ Len(doc) < MaxBlocks
Heading(l, t) ==
  /\ Open /\ (l = 3 => h[2] # 0)
  /\ Put([k |-> "h", l |-> l, t |-> t])
  /\ h' = CASE l = 1 -> <<t, 0, 0>> [] l = 2 -> <<h[1], t, 0>> [] l = 3 -> <<h[1], h[2], t>> [] OTHER -> h
  /\ cur' = 0 /\ stray' = None
  /\ UNCHANGED <<cfg, tests, bad, done>>
\* ann: the annotations of the block
Cairo(ann) ==
  /\ Open /\ Put([k |-> "cairo", ann |-> ann])
  /\ tests' = Append(tests, [key |-> Key(h), n |-> Nth(Key(h)), src |-> Id, ann |-> ann,
                             rust |-> IF stray = None THEN {None} ELSE {None, stray},     \* Rust code in front of the first test: either reading
                             cfg |-> {cfg}])
  /\ cur' = Len(tests) + 1 /\ stray' = None
  /\ UNCHANGED <<h, cfg, bad, done>>
\* Rust code belongs to the test in front of it
Rust ==
  /\ Open
  /\ IF cur # 0 THEN tests[cur].rust \subseteq {None} \cup {x \in 1..Len(doc) : x < tests[cur].src}
     ELSE /\ Strays /\ stray = None
          \* whether a level 4 heading takes Rust code away from the test in front of it is left open
          /\ ~\E i \in 1..Len(doc) : doc[i].k = "h" /\ doc[i].l = 4 /\ \A j \in i..Len(doc) : doc[j].k # "cairo" /\ (doc[j].k = "h" => doc[j].l = 4)
  /\ Put([k |-> "rust"])
  /\ IF cur = 0 THEN stray' = Id /\ tests' = tests ELSE stray' = stray /\ tests' = [tests EXCEPT ![cur].rust = {Id}]
  /\ UNCHANGED <<h, cfg, cur, bad, done>>
\* a configuration is for the tests behind it (and may be meant for the one just in front of it)
Toml(c) ==
  /\ Open /\ Put([k |-> "toml", c |-> c]) /\ cfg' = c
  /\ tests' = IF cur = 0 THEN tests ELSE [tests EXCEPT ![cur].cfg = @ \cup {c}]
  /\ UNCHANGED <<h, stray, cur, bad, done>>
BadToml == /\ Open /\ ~bad /\ Put([k |-> "badtoml"]) /\ bad' = TRUE /\ UNCHANGED <<h, cfg, stray, cur, tests, done>>
Fill(f) == /\ Open /\ Put([k |-> "fill", f |-> f]) /\ UNCHANGED <<h, cfg, stray, cur, tests, bad, done>>
Anns == IF Sim THEN SUBSET {"expected", "error", "tags", "rust-equiv", "ignore", "other"} ELSE {{}, {"error", "ignore"}}
Init == doc = <<>> /\ h = <<0, 0, 0>> /\ cfg = None /\ stray = None /\ cur = 0 /\ tests = <<>> /\ bad = FALSE /\ done = FALSE
Rare(n) == ~Sim \/ RandomElement(IF Len(doc) >= 0 THEN 1..n ELSE {}) = 1
Next == \/ \E l \in Pick(1..4), t \in Pick(Titles) : Heading(l, t)
        \/ \E a \in Pick(Anns) : Cairo(a)
        \/ (Sim /\ \E a \in Pick(Anns) : Cairo(a))
        \/ Rust
        \/ \E c \in Pick(Cfgs) : Toml(c)
        \/ (Rare(12) /\ BadToml)
        \/ \E f \in Pick(Fills) : Fill(f)
        \/ /\ ~done /\ (Sim => Len(doc) = MaxBlocks \/ Rare(25)) /\ done' = TRUE /\ UNCHANGED <<doc, h, cfg, stray, cur, tests, bad>>
Spec == Init /\ [][Next]_vars

(* ------------------------------------------- the same, declaratively *)
Cairos == {i \in 1..Len(doc) : doc[i].k = "cairo"}
Complete == Len(tests) = Cardinality(Cairos) /\ (\A i \in 1..(Len(tests) - 1) : tests[i].src < tests[i + 1].src)
            /\ {tests[i].src : i \in 1..Len(tests)} = Cairos
\* the last heading of level l in front of block i that no higher one has closed
LastH(i, l) == LET S == {j \in 1..(i - 1) : doc[j].k = "h" /\ doc[j].l = l /\ ~\E m \in (j + 1)..(i - 1) : doc[m].k = "h" /\ doc[m].l < l}
               IN IF S = {} THEN 0 ELSE doc[CHOOSE j \in S : \A m \in S : m <= j].t
OwnSection == \A i \in 1..Len(tests) : tests[i].key = Key(<<LastH(tests[i].src, 1), LastH(tests[i].src, 2), LastH(tests[i].src, 3)>>)
SameSection(i, j) == ~\E m \in i..j : doc[m].k = "h"
OwnRust == \A i \in 1..Len(tests) : \A r \in tests[i].rust : r # None =>
    (doc[r].k = "rust" /\ SameSection(IF r < tests[i].src THEN r ELSE tests[i].src, IF r < tests[i].src THEN tests[i].src ELSE r))
NoRustTwice == \A i, j \in 1..Len(tests) : i # j => (tests[i].rust \cap tests[j].rust) \subseteq {None}
Unique == \A i, j \in 1..Len(tests) : i # j => <<tests[i].key, tests[i].n>> # <<tests[j].key, tests[j].n>>
EmitCase == done => PrintT("CASE " \o ToJson([doc |-> doc, tests |-> tests, bad |-> bad]))
=============================================================================
