---------------------------- MODULE ControlFlow ----------------------------
(***************************************************************************)
(* Control-flow diagnostics (property C05).  A behaviour writes a program  *)
(* statement by statement; each frame of the stack is one statement list   *)
(* and carries whether control can still reach its current end ("live").   *)
(* The expected diagnostics - missing return, break/continue outside a     *)
(* loop, unreachable statement - are part of the state.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Randomization
CONSTANTS MaxEvents, MaxDepth, MaxFns, Sim, Simple, Opens

VARIABLES toks, stk, nev, nfn, missing, unreach, outside, done
vars == <<toks, stk, nev, nfn, missing, unreach, outside, done>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Top == stk[Len(stk)]
InFn == Len(stk) > 0
Room == nev < MaxEvents
P0 == Len(toks) + 1
IsLoop(k) == k \in {"loop", "while", "for"}
LoopsIn == {i \in 1..Len(stk) : IsLoop(stk[i].k)}
\* innermost enclosing loop of the current function (a stack never spans functions)
TargetLoop == IF LoopsIn = {} THEN 0 ELSE CHOOSE i \in LoopsIn : \A j \in LoopsIn : j <= i

(* frame: k kind; live: the list can complete up to here; reach: the start *)
(* of this list can be reached from the start of the innermost loop body   *)
(* (or function body); brk: a reachable break leaves this loop; any: some  *)
(* earlier branch of this if can complete; ft: function-name token         *)
Frame(k, reach, any, ft) == [k |-> k, live |-> TRUE, reach |-> reach, brk |-> FALSE, any |-> any, ft |-> ft]

NewFns(i) == CASE i = 1 -> "f1" [] i = 2 -> "f2" [] OTHER -> "f3"

Init == /\ toks = <<>> /\ stk = <<>> /\ nev = 0 /\ nfn = 0
        /\ missing = {} /\ unreach = {} /\ outside = {} /\ done = FALSE

OpenFn ==
  /\ ~InFn /\ nfn < MaxFns /\ Room /\ ~done
  /\ \E unit \in Pick({TRUE, FALSE}) :
      /\ toks' = toks \o (IF unit THEN <<"fn", NewFns(nfn + 1), "(", "c", ":", "bool", ")", "{">>
                          ELSE <<"fn", NewFns(nfn + 1), "(", "c", ":", "bool", ")", "->", "felt", "{">>)
      /\ stk' = <<Frame(IF unit THEN "ufn" ELSE "fn", TRUE, FALSE, P0 + 1)>>
  /\ nfn' = nfn + 1 /\ nev' = nev + 1
  /\ UNCHANGED <<missing, unreach, outside, done>>

\* a statement starting here is unreachable iff its list can no longer complete
Mark == unreach' = IF Top.live THEN unreach ELSE unreach \cup {P0}

SetLive(s, v) == [s EXCEPT ![Len(s)].live = v]

RetToks == IF stk[1].k = "ufn" THEN <<"return", ";">> ELSE <<"return", "1", ";">>

SimpleStmt ==
  /\ InFn /\ Room
  /\ \E s \in Pick(Simple) :
      /\ Mark
      /\ toks' = toks \o (CASE s = "let" -> <<"let", "x", "=", "1", ";">>
                            [] s = "expr" -> <<"f1", "(", "c", ")", ";">>
                            [] s = "const" -> <<"const", "k", "=", "1", ";">>
                            [] s = "ret" -> RetToks
                            [] s = "brk" -> <<"break", ";">>
                            [] OTHER -> <<"continue", ";">>)
      /\ CASE s \in {"let", "expr", "const"} -> UNCHANGED <<stk, outside>>
           [] s = "ret" -> stk' = SetLive(stk, FALSE) /\ UNCHANGED outside
           [] s \in {"brk", "cont"} ->
                IF TargetLoop = 0
                THEN outside' = outside \cup {<<s, P0>>} /\ UNCHANGED stk
                ELSE /\ stk' = LET s1 == SetLive(stk, FALSE) IN
                               IF s = "brk" /\ Top.live /\ Top.reach
                               THEN [s1 EXCEPT ![TargetLoop].brk = TRUE] ELSE s1
                     /\ UNCHANGED outside
  /\ nev' = nev + 1
  /\ UNCHANGED <<nfn, missing, done>>

Open ==
  /\ InFn /\ Room /\ Len(stk) < MaxDepth
  /\ \E k \in Pick(Opens) :
      /\ Mark
      /\ toks' = toks \o (CASE k = "blk" -> <<"{">> [] k = "loop" -> <<"loop", "{">>
                            [] k = "while" -> <<"while", "(", "c", ")", "{">>
                            [] k = "for" -> <<"for", "(", "let", "i", "=", "0", ";", "i", "!=", "3", ";", "i", "=", "i", "+", "1", ")", "{">>
                            [] OTHER -> <<"if", "(", "c", ")", "{">>)
      /\ stk' = Append(stk, Frame(k, IF IsLoop(k) THEN TRUE ELSE Top.reach /\ Top.live, FALSE, 0))
  /\ nev' = nev + 1
  /\ UNCHANGED <<nfn, missing, outside, done>>

Else ==
  /\ InFn /\ Room /\ Top.k \in {"if", "elif"}
  /\ \E k \in Pick({"else", "elif"}) :
      /\ toks' = toks \o (IF k = "else" THEN <<"}", "else", "{">> ELSE <<"}", "else", "if", "(", "c", ")", "{">>)
      /\ stk' = [stk EXCEPT ![Len(stk)] = [Frame(k, Top.reach, Top.any \/ Top.live, 0) EXCEPT !.brk = Top.brk]]
  /\ nev' = nev + 1
  /\ UNCHANGED <<nfn, missing, unreach, outside, done>>

\* can the structured statement that ends here complete?
Completes == CASE Top.k = "blk" -> Top.live
               [] Top.k = "loop" -> Top.brk
               [] Top.k \in {"while", "for"} -> TRUE
               [] Top.k \in {"if", "elif"} -> TRUE
               [] Top.k = "else" -> Top.any \/ Top.live
               [] OTHER -> FALSE
Close ==
  /\ InFn
  /\ toks' = Append(toks, "}")
  /\ IF Len(stk) = 1
     THEN /\ stk' = <<>>
          /\ missing' = IF Top.live THEN missing \cup {Top.ft} ELSE missing
     ELSE /\ stk' = LET s == SubSeq(stk, 1, Len(stk) - 1) IN
                    SetLive(s, s[Len(s)].live /\ Completes)
          /\ UNCHANGED missing
  /\ UNCHANGED <<nev, nfn, unreach, outside, done>>

Finish == ~InFn /\ ~done /\ nfn > 0 /\ done' = TRUE
          /\ UNCHANGED <<toks, stk, nev, nfn, missing, unreach, outside>>

Next == OpenFn \/ SimpleStmt \/ Open \/ Else \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

Case == [toks |-> toks, missing |-> missing, unreach |-> unreach, outside |-> outside]
EmitCase == done => PrintT("CASE " \o ToJson(Case))

\* ------------------------------------------------------------- invariants
\* break/continue are reported only when no loop is open; what is reported
\* unreachable follows something that never completes in its own list
OutsideOK == \A o \in outside : toks[o[2]] \in {"break", "continue"}
\* a function reported as missing a return is complete and its name is there
MissingOK == \A m \in missing : toks[m] \in {"f1", "f2", "f3"}
\* a frame that cannot be reached from its loop body never sets brk
BrkOK == \A i \in 1..Len(stk) : stk[i].brk => IsLoop(stk[i].k)
=============================================================================
