---------------------------- MODULE Diagnostics ----------------------------
(***************************************************************************)
(* Diagnostics (property C18): a collection as a state machine whose       *)
(* queries are functions of the sequence of diagnostics it holds, and the  *)
(* position a rendering has to show, found by walking over the source.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,          \* "coll" or "render"
          Sim, MaxOps, MaxLen, Sevs, Msgs
VARIABLES coll, next, ops, hist,                 \* the collection
          txt, sp, pos, line, col, at, phase     \* the rendering
cvars == <<coll, next, ops, hist>>
rvars == <<txt, sp, pos, line, col, at>>
vars == <<coll, next, ops, hist, txt, sp, pos, line, col, at, phase>>
\* the state keeps TLC from evaluating the choice once and for all
Pick(S) == RandomElement(IF next >= 0 THEN S ELSE {})

(* ------------------------------------------------------------ collections *)
\* severity 1 error, 2 warning, 3 info, 4 hint; messages are numbered in their order; n tells diagnostics apart
Diag == [s : Sevs, m : Msgs]
Before(a, b) == a.s < b.s \/ (a.s = b.s /\ a.m < b.m)
\* a stable sort: what may not be ordered by severity and message keeps its place relative to its equals
Rank(q, i) == Cardinality({j \in 1..Len(q) : Before(q[j], q[i]) \/ (~Before(q[i], q[j]) /\ j <= i)})
Sorted(q) == [k \in 1..Len(q) |-> q[CHOOSE i \in 1..Len(q) : Rank(q, i) = k]]
Num(d, n) == [s |-> d.s, m |-> d.m, n |-> n]
NumSeq(q, n) == [i \in 1..Len(q) |-> Num(q[i], n + i - 1)]
Err(q) == SelectSeq(q, LAMBDA d : d.s = 1)
Warn(q) == SelectSeq(q, LAMBDA d : d.s = 2)
Answers(q) == [all |-> q, err |-> Len(Err(q)), warn |-> Len(Warn(q))]
Batches == IF Sim THEN {TLCEval([i \in 1..Pick(0..4) |-> Pick(Diag)])} ELSE {<<>>} \cup {<<d>> : d \in Diag} \cup {<<d, e>> : d \in Diag, e \in {[s |-> 1, m |-> 1], [s |-> 2, m |-> 1]}}
Log(o, b, c) == /\ coll' = c /\ ops' = Append(ops, [op |-> o, ds |-> b]) /\ hist' = Append(hist, Answers(c))
AddDiag == \E d \in (IF Sim THEN {TLCEval(Pick(Diag))} ELSE Diag) : LET b == <<Num(d, next)>> IN Log("add", b, coll \o b) /\ next' = next + 1
Extend == \E b0 \in Batches : LET b == NumSeq(b0, next) IN Log("extend", b, coll \o b) /\ next' = next + Len(b)
ExtendSelf == Len(coll) <= 12 /\ Log("self", <<>>, coll \o coll) /\ next' = next
SortAll == Log("sort", <<>>, Sorted(coll)) /\ next' = next
CollStep == /\ phase = "run" /\ Kind = "coll" /\ Len(ops) < MaxOps
            /\ (AddDiag \/ Extend \/ ExtendSelf \/ SortAll)
            /\ UNCHANGED <<rvars, phase>>
\* nothing is lost, nothing is invented, and the sorted collection is sorted stably
Count(q, d) == Cardinality({i \in 1..Len(q) : q[i] = d})
RECURSIVE Given(_)
Given(o) == IF o = <<>> THEN <<>> ELSE LET r == Given(SubSeq(o, 1, Len(o) - 1)) IN IF o[Len(o)].op = "self" THEN r \o r ELSE r \o o[Len(o)].ds
NothingLost == Kind = "coll" => LET g == Given(ops) IN Len(g) = Len(coll) /\ \A i \in 1..Len(g) : Count(g, g[i]) = Count(coll, g[i])
SortedAfterSort == (Kind = "coll" /\ ops # <<>> /\ ops[Len(ops)].op = "sort") =>
    /\ \A i \in 1..(Len(coll) - 1) : ~Before(coll[i + 1], coll[i])
    /\ Len(hist) >= 2 => LET old == hist[Len(hist) - 1].all IN
         \A d \in {old[i] : i \in 1..Len(old)} :
            SelectSeq(old, LAMBDA x : x.s = d.s /\ x.m = d.m) = SelectSeq(coll, LAMBDA x : x.s = d.s /\ x.m = d.m)
Partition == Kind = "coll" => Len(Err(coll)) + Len(Warn(coll)) <= Len(coll)

(* --------------------------------------------------------------- rendering *)
\* characters with the number of bytes they take; CRLF is one line end
Chars == {"a", "E", "J", "NL", "CRLF", "TAB"}
W(c) == CASE c = "E" -> 2 [] c = "J" -> 4 [] c = "CRLF" -> 2 [] OTHER -> 1
RECURSIVE Bytes(_, _)
Bytes(t, n) == IF n = 0 THEN 0 ELSE W(t[n]) + Bytes(t, n - 1)
EndsLine(c) == c \in {"NL", "CRLF"}
Texts == IF Sim THEN {TLCEval([i \in 1..Pick(0..MaxLen) |-> Pick(IF Pick(1..3) = 1 THEN Chars ELSE {"a", "E", "NL"})])} ELSE UNION {[1..n -> Chars] : n \in 0..MaxLen}
Draw == /\ phase = "draw" /\ phase' = "run"
        /\ \E t \in Texts : /\ txt' = t
            /\ \E a \in (IF Sim THEN {TLCEval(Pick(0..Len(t)))} ELSE 0..Len(t)) :
                 \E b \in (IF Sim THEN {TLCEval(Pick(a..Len(t)))} ELSE a..Len(t)) : sp' = <<a, b>>
        /\ UNCHANGED <<cvars, pos, line, col, at>>
\* the position in front of each character (0-based index pos) and, at the end, behind the last one
Walk == /\ phase = "run" /\ Kind = "render"
        /\ at' = Append(at, [l |-> line, c |-> col])
        /\ IF pos < Len(txt) THEN LET ch == txt[pos + 1] IN
              \* the end of the text belongs to the last line even if that line is terminated
              IF EndsLine(ch) /\ pos + 1 < Len(txt) THEN line' = line + 1 /\ col' = 1 /\ pos' = pos + 1 /\ phase' = phase
              ELSE line' = line /\ col' = col + (IF ch = "CRLF" THEN 2 ELSE 1) /\ pos' = pos + 1 /\ phase' = phase
           ELSE phase' = "done" /\ UNCHANGED <<line, col, pos>>
        /\ UNCHANGED <<cvars, txt, sp>>
\* the declarative counterpart of the walk
LineOf(t, p) == 1 + Cardinality({i \in 1..p : EndsLine(t[i]) /\ i < Len(t)})
LastNL(t, p) == LET S == {i \in 1..p : EndsLine(t[i]) /\ i < Len(t)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
WalkOk == Kind = "render" => \A p \in 0..(Len(at) - 1) : at[p + 1].l = LineOf(txt, p)
             /\ at[p + 1].c = 1 + (p - LastNL(txt, p)) + Cardinality({i \in (LastNL(txt, p) + 1)..p : txt[i] = "CRLF"})
\* the last character a label covers (its own start if it is empty)
LastCh(a, b) == IF b > a THEN b - 1 ELSE a

(* --------------------------------------------------- tables of the constructors *)
Codes == [LexicalError |-> 1, SyntaxError |-> 2, UnexpectedToken |-> 3, UnexpectedEndOfFile |-> 4, InvalidCharacter |-> 5,
          UndeclaredVariable |-> 1001, UnusedVariable |-> 1002, DuplicateDefinition |-> 1003, UseBeforeDefinition |-> 1004, UnresolvedImport |-> 1005, DuplicateParameter |-> 1006,
          DuplicateStructField |-> 1007, DuplicatePatternIdentifier |-> 1008, UndeclaredType |-> 1009, UnresolvedModule |-> 1010,
          TypeMismatch |-> 2001, InvalidFieldAccess |-> 2002, InvalidIndexAccess |-> 2003, InvalidStructLiteral |-> 2004, InvalidFunctionCall |-> 2005, InvalidAssignment |-> 2006,
          InvalidReturnType |-> 2007, InvalidTypeDefinition |-> 2008, InvalidIndexType |-> 2009, InvalidAssignmentTarget |-> 2010, MissingReturnValue |-> 2011,
          TupleIndexOutOfBounds |-> 2012, InvalidTupleIndexAccess |-> 2013, AssignmentToConst |-> 2014, IndexOutOfBounds |-> 2015, TypeInferenceError |-> 2016, ConstArrayByPointer |-> 2017,
          UnreachableCode |-> 3001, MissingReturn |-> 3002, BreakOutsideLoop |-> 3003, ContinueOutsideLoop |-> 3004, InternalError |-> 9001]
Injective == \A x, y \in DOMAIN Codes : Codes[x] = Codes[y] => x = y
\* constructor -> severity, code, message around the name
Ctors == [undeclared_variable |-> <<1, "UndeclaredVariable", "Undeclared variable '", "'">>, undeclared_type |-> <<1, "UndeclaredType", "Cannot find type '", "' in this scope">>,
          unused_variable |-> <<2, "UnusedVariable", "Unused variable '", "'">>, duplicate_definition |-> <<1, "DuplicateDefinition", "Duplicate definition of '", "'">>,
          use_before_definition |-> <<1, "UseBeforeDefinition", "Variable '", "' used before definition">>, unreachable_code |-> <<2, "UnreachableCode", "Unreachable ", "">>,
          missing_return |-> <<1, "MissingReturn", "Function '", "' doesn't return on all paths">>, lexical_error |-> <<1, "LexicalError", "", "">>, syntax_error |-> <<1, "SyntaxError", "", "">>,
          unexpected_token |-> <<1, "UnexpectedToken", "Expected ", ", found z">>, unresolved_import |-> <<1, "UnresolvedImport", "Module '", "' not found">>]

Init == /\ phase = (IF Kind = "render" THEN "draw" ELSE "run") /\ coll = <<>> /\ next = 1 /\ ops = <<>> /\ hist = <<>>
        /\ txt = <<>> /\ sp = <<0, 0>> /\ pos = 0 /\ line = 1 /\ col = 1 /\ at = <<>>
Stop == /\ phase = "run" /\ Kind = "coll" /\ Len(ops) = MaxOps /\ phase' = "done" /\ UNCHANGED <<cvars, rvars>>
Next == Draw \/ CollStep \/ Walk \/ Stop
Spec == Init /\ [][Next]_vars
J(x) == PrintT("CASE " \o ToJson(x))
P(i) == <<at[i + 1].l, at[i + 1].c>>
EmitCase == phase = "done" => IF Kind = "coll" THEN J([k |-> "coll", ops |-> ops, hist |-> hist])
            ELSE J([k |-> "render", t |-> txt, sp |-> sp, b |-> <<Bytes(txt, sp[1]), Bytes(txt, sp[2])>>, from |-> P(sp[1]), last |-> P(LastCh(sp[1], sp[2]))])
EmitTables == (Kind = "coll" /\ ops = <<>>) => J([k |-> "tables", codes |-> Codes, ctors |-> Ctors])
=============================================================================
