------------------------------ MODULE InstrCodec ------------------------------
(***************************************************************************)
(* Words that may or may not be an instruction (property C24). A state is  *)
(* a sequence of field elements; a transition appends one.                 *)
(***************************************************************************)
EXTENDS Instr, Json
CONSTANTS Values, MaxCode
VARIABLES w
Init == w = <<>>
\* (a number behind the operands already there: all positions stay apart)
Push(v) == w' = Append(w, v)
Next == IF w = <<>> THEN \E c \in 0..MaxCode \cup {255, 65536, P - 1} : Push(c)
        ELSE Len(w) < 7 /\ \E v \in (IF Len(w) < 3 THEN Values ELSE {AddF(w[2], 7 * Len(w)), P - 1 - Len(w)}) : Push(v)
Spec == Init /\ [][Next]_w
Outcome == IF w = <<>> THEN [err |-> "size"] ELSE IF w[1] \notin Codes THEN [err |-> "opcode"]
           ELSE LET o == OpOf[w[1]] x == Tail(w) IN
                IF Len(x) # Arity(o) THEN [err |-> "size"]
                ELSE [op |-> o, words |-> Encode(o, x), acc |-> Accesses(o), size |-> <<Arity(o) + 1, NWords(o)>>]
\* what is written down reads back: the words of an instruction determine it
Back(ws) == LET all == IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o ws[2] IN SubSeq(all, 1, 1 + Arity(OpOf[all[1]]))
Injective == "op" \in DOMAIN Outcome => Back(Outcome.words) = w
EmitCase == PrintT("CASE " \o ToJson([w |-> w, out |-> Outcome]))
=============================================================================
