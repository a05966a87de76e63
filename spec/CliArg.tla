------------------------------- MODULE CliArg -------------------------------
(***************************************************************************)
(* The textual form of arguments (property C24): numbers, booleans, and    *)
(* lists in (), [] or {} with commas between their elements. A transition  *)
(* reads one token; what cannot be continued is rejected.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Atoms, Junk, Len1
VARIABLES toks, st, stack, val
vars == <<toks, st, stack, val>>
\* st: want (a value), first (a value or the end of an empty list), sep (a comma or the end), done, bad
Init == toks = <<>> /\ st = "want" /\ stack = <<>> /\ val = <<>>
Open == {"(", "[", "{"}
Close == [c \in Open |-> CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}"]
Top == stack[Len(stack)]
Put(v) == IF stack = <<>> THEN /\ st' = "done" /\ val' = v /\ stack' = stack
          ELSE /\ st' = "sep" /\ stack' = [stack EXCEPT ![Len(stack)].items = Append(@, v)] /\ val' = val
Bad == st' = "bad" /\ UNCHANGED <<stack, val>>
Ended(f) == [k |-> IF f.o = "{" THEN "s" ELSE "l", items |-> f.items]
CloseTop == LET v == Ended(Top) rest == SubSeq(stack, 1, Len(stack) - 1) IN
            IF rest = <<>> THEN st' = "done" /\ val' = v /\ stack' = <<>>
            ELSE st' = "sep" /\ stack' = [rest EXCEPT ![Len(rest)].items = Append(@, v)] /\ val' = val
Read(t) ==
  /\ toks' = Append(toks, t)
  /\ CASE st \in {"want", "first"} /\ t \in Atoms -> Put([k |-> "a", t |-> t])
       [] st \in {"want", "first"} /\ t \in Open -> st' = "first" /\ stack' = Append(stack, [o |-> t, items |-> <<>>]) /\ val' = val
       [] st \in {"first", "sep"} /\ t = Close[Top.o] -> CloseTop
       [] st = "sep" /\ t = "," -> st' = "want" /\ UNCHANGED <<stack, val>>
       [] OTHER -> Bad
Next == /\ st # "bad" /\ Len(toks) < Len1
        /\ \E t \in Atoms \cup Junk \cup Open \cup {")", "]", "}", ","} : Read(t)
Spec == Init /\ [][Next]_vars
Closed == st = "done" => stack = <<>>
EmitCase == PrintT("CASE " \o ToJson([toks |-> toks, ok |-> st = "done", val |-> val]))
=============================================================================
