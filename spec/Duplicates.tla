----------------------------- MODULE Duplicates -----------------------------
(***************************************************************************)
(* Names declared twice (property C04).                                    *)
(*                                                                         *)
(* A behaviour writes one module, left to right: items with parameters,    *)
(* fields or import lists, and function bodies in which let patterns stand *)
(* at any nesting.  The state carries what has been declared in each       *)
(* scope that allows a name only once (the module, one parameter list, one *)
(* struct, one pattern) and the set of repeated declarations.  Blocks and  *)
(* functions shadow freely, so nothing else is a repetition.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Names,      \* names that are declared
          Exported,   \* of those, the names the imported module has
          MaxList,    \* longest parameter, field or import list
          Shapes,     \* pattern shapes in use
          Holes,      \* the statements that may hold others
          MaxEvents, MaxDepth, Sim
VARIABLES toks, items, dups, stk, nev, done
vars == <<toks, items, dups, stk, nev, done>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
PickSeq(S, n) == IF Sim THEN LET k == RandomElement(0..n) IN {[j \in 1..k |-> RandomElement(S)]} ELSE Seqs(S, n)

\* the tokens of a pattern; "?" stands for a name
Shape(k) == CASE k = "id"    -> <<"?">>
              [] k = "pair"  -> <<"(", "?", ",", "?", ")">>
              [] k = "three" -> <<"(", "?", ",", "?", ",", "?", ")">>
              [] k = "right" -> <<"(", "?", ",", "(", "?", ",", "?", ")", ")">>
              [] k = "left"  -> <<"(", "(", "?", ",", "?", ")", ",", "?", ")">>
              [] k = "both"  -> <<"(", "(", "?", ",", "?", ")", ",", "(", "?", ",", "?", ")", ")">>
              [] OTHER       -> <<"(", "(", "(", "?", ",", "?", ")", ",", "?", ")", ",", "?", ")">>
Slots(k) == SelectSeq([i \in 1..Len(Shape(k)) |-> i], LAMBDA i : Shape(k)[i] = "?")
FillIn(k, ns) == [i \in 1..Len(Shape(k)) |-> IF Shape(k)[i] = "?" THEN ns[CHOOSE j \in 1..Len(Slots(k)) : Slots(k)[j] = i] ELSE Shape(k)[i]]
PickNames(m) == IF Sim THEN {[j \in 1..m |-> RandomElement(Names)]} ELSE [1..m -> Names]

\* positions in the sequence of names ns at which a name comes again
Again(ns) == {j \in 1..Len(ns) : \E i \in 1..(j - 1) : ns[i] = ns[j]}
Next0 == Len(toks) + 1
Room == nev < MaxEvents /\ ~done
InFn == stk # <<>>
\* "a , b , c" with a width of w tokens each
Cats(q) == LET RECURSIVE cc(_)
               cc(j) == IF j > Len(q) THEN <<>> ELSE (IF j > 1 THEN <<",">> ELSE <<>>) \o q[j] \o cc(j + 1)
           IN cc(1)
\* declare the names ns (at token positions ps) in the module
Items(ns, ps) == /\ items' = items \o ns
                 /\ dups' = dups \cup {<<"DuplicateDefinition", ps[j]>> : j \in {q \in 1..Len(ns) : Len(items) + q \in Again(items \o ns)}}

Fn == /\ Room /\ ~InFn
      /\ \E n \in Pick(Names), ps \in PickSeq(Names, MaxList), r \in Pick(BOOLEAN) :
           LET t == <<"fn", n, "(">> \o Cats([j \in 1..Len(ps) |-> <<ps[j], ":", "felt">>]) \o <<")">> \o (IF r THEN <<"->", "felt">> ELSE <<>>) \o <<"{">> IN
           /\ toks' = toks \o t
           /\ items' = Append(items, n)
           /\ dups' = dups \cup {<<"DuplicateParameter", Next0 + 3 + 4 * (j - 1)>> : j \in Again(ps)}
                           \cup (IF n \in {items[i] : i \in 1..Len(items)} THEN {<<"DuplicateDefinition", Next0 + 1>>} ELSE {})
      /\ stk' = <<"fn">> /\ nev' = nev + 1 /\ UNCHANGED done
Struct == /\ Room /\ ~InFn
          /\ \E n \in Pick(Names), fs \in PickSeq(Names, MaxList) :
               /\ toks' = toks \o <<"struct", n, "{">> \o Cats([j \in 1..Len(fs) |-> <<fs[j], ":", "felt">>]) \o <<"}">>
               /\ items' = Append(items, n)
               /\ dups' = dups \cup {<<"DuplicateStructField", Next0 + 3 + 4 * (j - 1)>> : j \in Again(fs)}
                               \cup (IF n \in {items[i] : i \in 1..Len(items)} THEN {<<"DuplicateDefinition", Next0 + 1>>} ELSE {})
          /\ nev' = nev + 1 /\ UNCHANGED <<stk, done>>
Const == /\ Room /\ ~InFn
         /\ \E n \in Pick(Names) : /\ toks' = toks \o <<"const", n, "=", "1", ";">>
                                   /\ Items(<<n>>, <<Next0 + 1>>)
         /\ nev' = nev + 1 /\ UNCHANGED <<stk, done>>
Use == /\ Room /\ ~InFn
       /\ \E ns \in PickSeq(Exported, MaxList), l \in Pick(BOOLEAN) :
            /\ ns # <<>>
            /\ IF l \/ Len(ns) > 1
               THEN /\ toks' = toks \o <<"use", "lib", "::", "{">> \o Cats([j \in 1..Len(ns) |-> <<ns[j]>>]) \o <<"}", ";">>
                    /\ Items(ns, [j \in 1..Len(ns) |-> Next0 + 4 + 2 * (j - 1)])
               ELSE /\ toks' = toks \o <<"use", "lib", "::", ns[1], ";">>
                    /\ Items(ns, <<Next0 + 3>>)
       /\ nev' = nev + 1 /\ UNCHANGED <<stk, done>>

(* statements; a frame whose name ends in "1" has a body without braces *)
Braced(f) == f \in {"fn", "blk", "if", "else", "elif", "loop", "while", "for"}
RECURSIVE Keep(_)
Keep(s) == IF s # <<>> /\ ~Braced(s[Len(s)]) THEN Keep(SubSeq(s, 1, Len(s) - 1)) ELSE s
PatDups(k, ns, p) == {<<"DuplicatePatternIdentifier", p + Slots(k)[j] - 1>> : j \in Again(ns)}
Let == /\ Room /\ InFn
       /\ \E k \in Pick(Shapes) : \E ns \in PickNames(Len(Slots(k))), y \in Pick(BOOLEAN) :
            /\ toks' = toks \o <<"let">> \o FillIn(k, ns) \o (IF y THEN <<":", "felt">> ELSE <<>>) \o <<"=", "1", ";">>
            /\ dups' = dups \cup PatDups(k, ns, Next0 + 1)
       /\ stk' = Keep(stk) /\ nev' = nev + 1 /\ UNCHANGED <<items, done>>
\* constants of a body shadow one another
LocalConst == /\ Room /\ InFn
              /\ \E n \in Pick(Names) : toks' = toks \o <<"const", n, "=", "1", ";">>
              /\ stk' = Keep(stk) /\ nev' = nev + 1 /\ UNCHANGED <<items, dups, done>>
Hole == /\ Room /\ InFn /\ Len(stk) < MaxDepth
        /\ \E h \in Pick(Holes) :
             /\ toks' = toks \o (CASE h = "blk" -> <<"{">>
                                   [] h = "if" -> <<"if", "(", "true", ")", "{">>
                                   [] h = "if1" -> <<"if", "(", "true", ")">>
                                   [] h = "loop" -> <<"loop", "{">>
                                   [] h = "loop1" -> <<"loop">>
                                   [] h = "while" -> <<"while", "(", "true", ")", "{">>
                                   [] h = "while1" -> <<"while", "(", "true", ")">>
                                   [] OTHER -> <<>>)
             /\ h \notin {"for", "for1"}
             /\ stk' = Append(stk, h)
        /\ nev' = nev + 1 /\ UNCHANGED <<items, dups, done>>
For == /\ Room /\ InFn /\ Len(stk) < MaxDepth
       /\ \E h \in Pick(Holes \cap {"for", "for1"}), k \in Pick(Shapes) : \E ns \in PickNames(Len(Slots(k))) :
            /\ toks' = toks \o <<"for", "(", "let">> \o FillIn(k, ns) \o <<"=", "1", ";", "true", ";", "f9", "(", ")", ")">> \o (IF h = "for" THEN <<"{">> ELSE <<>>)
            /\ dups' = dups \cup PatDups(k, ns, Next0 + 3)
            /\ stk' = Append(stk, h)
       /\ nev' = nev + 1 /\ UNCHANGED <<items, done>>
Top == stk[Len(stk)]
Else == /\ Room /\ Len(stk) > 1 /\ Top \in {"if", "elif"}
        /\ \E e \in Pick({"else", "elif", "else1"}) :
             /\ toks' = toks \o <<"}", "else">> \o (IF e = "elif" THEN <<"if", "(", "true", ")", "{">> ELSE IF e = "else" THEN <<"{">> ELSE <<>>)
             /\ stk' = [stk EXCEPT ![Len(stk)] = e]
        /\ nev' = nev + 1 /\ UNCHANGED <<items, dups, done>>
\* a bare frame left open when the events run out gets an empty block
Fill0 == /\ ~Room /\ InFn /\ ~Braced(Top) /\ toks' = toks \o <<"{", "}">> /\ stk' = Keep(stk) /\ UNCHANGED <<items, dups, nev, done>>
Close == /\ InFn /\ Braced(Top) /\ ~done
         /\ toks' = Append(toks, "}") /\ stk' = Keep(SubSeq(stk, 1, Len(stk) - 1)) /\ UNCHANGED <<items, dups, nev, done>>
Finish == ~InFn /\ ~done /\ items # <<>> /\ done' = TRUE /\ UNCHANGED <<toks, items, dups, stk, nev>>
Init == toks = <<>> /\ items = <<>> /\ dups = {} /\ stk = <<>> /\ nev = 0 /\ done = FALSE
Next == Fn \/ Struct \/ Const \/ Use \/ Let \/ LocalConst \/ Hole \/ For \/ Else \/ Fill0 \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

Case == [toks |-> toks, dups |-> dups]
EmitCase == done => PrintT("CASE " \o ToJson(Case))
\* the first declaration of a module name is never a repetition, and the count of repetitions of module names
\* is what is left of the items when every name is counted once
Counted == Cardinality({d \in dups : d[1] = "DuplicateDefinition"}) = Len(items) - Cardinality({items[i] : i \in 1..Len(items)})
\* a repetition is at a name that stands earlier in the text
Earlier == \A d \in dups : \E p \in 1..(d[2] - 1) : toks[p] = toks[d[2]]
=============================================================================
