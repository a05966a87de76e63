------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* Integer literals (property C09).  Values exceed TLC's integers, so a    *)
(* literal is what the user writes: a base and a sequence of digits.  A    *)
(* behaviour starts at a bound of some integer type and walks away from it *)
(* by exact decrements and increments on the digit sequence, by leading    *)
(* zeros and further digits; then the literal is put, with or without a    *)
(* suffix, into a context that decides its type.  It is owed an error      *)
(* exactly when its value exceeds the bound of that type.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases, MaxWalk, Shapes
VARIABLES base, num, walk, upper, out
vars == <<base, num, walk, upper, out>>

Rep(d, n) == [i \in 1..n |-> d]
\* 2^31 - 1, 2^32 - 1 and 2^64 - 1 in each base
FeltMax(b) == CASE b = 2 -> Rep(1, 31) [] b = 8 -> <<1>> \o Rep(7, 10) [] b = 16 -> <<7>> \o Rep(15, 7)
                [] OTHER -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
U32Max(b) == CASE b = 2 -> Rep(1, 32) [] b = 8 -> <<3>> \o Rep(7, 10) [] b = 16 -> Rep(15, 8)
               [] OTHER -> <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
U64Max(b) == CASE b = 2 -> Rep(1, 64) [] b = 8 -> <<1>> \o Rep(7, 21) [] b = 16 -> Rep(15, 16)
               [] OTHER -> <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>

RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Head(s) = 0 THEN Strip(Tail(s)) ELSE s
RECURSIVE LexLeq(_, _)
LexLeq(x, y) == IF x = <<>> THEN TRUE ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE LexLeq(Tail(x), Tail(y))
Leq(x0, y0) == LET x == Strip(x0) y == Strip(y0) IN IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLeq(x, y)
RECURSIVE Inc(_, _), Dec(_, _)
Inc(s, b) == IF s = <<>> THEN <<1>>
             ELSE IF s[Len(s)] < b - 1 THEN [s EXCEPT ![Len(s)] = @ + 1]
             ELSE Inc(SubSeq(s, 1, Len(s) - 1), b) \o <<0>>
IsZero(s) == \A i \in 1..Len(s) : s[i] = 0
Dec(s, b) == IF s[Len(s)] > 0 THEN [s EXCEPT ![Len(s)] = @ - 1] ELSE Dec(SubSeq(s, 1, Len(s) - 1), b) \o <<b - 1>>

(* contexts: tokens before and after the literal, the function's return type, the
   type the context gives an unsuffixed literal, and whether that type is settled by
   the context alone ("sure") or passes through a larger expression               *)
C(nm, pre, post, ret, ty, sure) == [nm |-> nm, pre |-> pre, post |-> post, ret |-> ret, ty |-> ty, sure |-> sure]
Contexts ==
  {C("let", <<"let", "x", "=">>, <<";">>, "()", "felt", TRUE),
   C("letfelt", <<"let", "x", ":", "felt", "=">>, <<";">>, "()", "felt", TRUE),
   C("letu32", <<"let", "x", ":", "u32", "=">>, <<";">>, "()", "u32", TRUE),
   C("const", <<"const", "X", "=">>, <<";">>, "()", "felt", TRUE),
   C("constu32", <<"const", "X", ":", "u32", "=">>, <<";">>, "()", "u32", TRUE),
   C("assignfelt", <<"f", "=">>, <<";">>, "()", "felt", TRUE),
   C("assignu32", <<"u", "=">>, <<";">>, "()", "u32", TRUE),
   C("assignfield", <<"s", ".", "y", "=">>, <<";">>, "()", "u32", TRUE),
   C("retfelt", <<"return">>, <<";">>, "felt", "felt", TRUE),
   C("retu32", <<"return">>, <<";">>, "u32", "u32", TRUE),
   C("argfelt", <<"let", "x", "=", "h1", "(">>, <<")", ";">>, "()", "felt", TRUE),
   C("argu32", <<"let", "x", "=", "h2", "(">>, <<",", "b", ")", ";">>, "()", "u32", TRUE),
   C("argimported", <<"let", "x", "=", "i1", "(">>, <<")", ";">>, "()", "u32", TRUE),
   C("argimported2", <<"let", "x", "=", "i2", "(", "pp", ",">>, <<")", ";">>, "()", "felt", TRUE),
   C("fieldfelt", <<"let", "x", "=", "S", "{", "x", ":">>, <<",", "y", ":", "u", ",", "k", ":", "b", "}", ";">>, "()", "felt", TRUE),
   C("fieldu32", <<"let", "x", "=", "S", "{", "x", ":", "f", ",", "y", ":">>, <<",", "k", ":", "b", "}", ";">>, "()", "u32", TRUE),
   C("fieldimported", <<"let", "x", "=", "P", "{", "x", ":">>, <<",", "c", ":", "b", "}", ";">>, "()", "u32", TRUE),
   C("rightu32", <<"let", "x", "=", "u", "%">>, <<";">>, "()", "u32", FALSE),
   C("leftu32", <<"let", "x", "=">>, <<"+", "u", ";">>, "()", "u32", FALSE),
   C("condu32", <<"while", "(", "u", "<">>, <<")", "{", "}">>, "()", "u32", FALSE),
   C("leftfelt", <<"let", "x", "=">>, <<"*", "f", ";">>, "()", "felt", FALSE),
   C("rightfelt", <<"if", "(", "f", "==">>, <<")", "{", "}">>, "()", "felt", FALSE),
   C("arru32", <<"let", "x", ":", "[", "u32", ";", "2", "]", "=", "[", "u", ",">>, <<"]", ";">>, "()", "u32", FALSE),
   C("tuple", <<"let", "x", "=", "(", "b", ",">>, <<")", ";">>, "()", "felt", FALSE),
   C("paren", <<"return", "(">>, <<")", ";">>, "felt", "felt", FALSE),
   C("pointer", <<"let", "x", "=", "p", "[">>, <<"]", ";">>, "()", "felt", FALSE)}

Bound(ty) == IF ty = "felt" THEN FeltMax(base) ELSE U32Max(base)
\* the middle range in contexts that pass through a larger expression is decided
\* by how far the implementation's inference reaches: see known_findings
Unclaimed(c, suf) == suf = "" /\ ~c.sure /\ c.ty = "felt" /\ ~Leq(num, FeltMax(base)) /\ Leq(num, U32Max(base))

Init == /\ base \in Bases /\ walk = 0 /\ out = <<>>
        /\ num \in {<<0>>, <<1>>, FeltMax(base), U32Max(base), U64Max(base)}
        /\ upper \in (IF base = 16 THEN {TRUE, FALSE} ELSE {FALSE})
Walk(n) == out = <<>> /\ walk < MaxWalk /\ walk' = walk + 1 /\ num' = n /\ UNCHANGED <<base, out, upper>>
Up == Walk(Inc(num, base))
Down == ~IsZero(num) /\ Walk(Dec(num, base))
Zero == Walk(<<0>> \o num)
Longer == \E d \in {0, base - 1} : Len(num) < 70 /\ Walk(num \o <<d>>)
Put == /\ out = <<>>
       /\ \E c \in Contexts, suf \in {"", "felt", "u32"} :
            /\ suf # "" => (suf = c.ty \/ c.nm \in {"let", "const", "tuple"})
            /\ ~Unclaimed(c, suf)
            /\ c.nm \in Shapes \/ Shapes = {}
            /\ LET ty == IF suf = "" THEN c.ty ELSE suf
                   limit == IF suf = "" /\ ~c.sure /\ c.ty = "felt" THEN U32Max(base) ELSE Bound(ty)
               IN out' = <<[nm |-> c.nm, pre |-> c.pre, post |-> c.post, ret |-> c.ret, base |-> base, digits |-> num, upper |-> upper,
                            suf |-> suf, err |-> ~Leq(num, limit)]>>
       /\ UNCHANGED <<base, num, walk, upper>>
Next == Up \/ Down \/ Zero \/ Longer \/ Put
Spec == Init /\ [][Next]_vars

EmitCase == out # <<>> => PrintT("CASE " \o ToJson(out[1]))
\* sanity of the digit arithmetic
Arith == /\ Leq(num, Inc(num, base)) /\ ~Leq(Inc(num, base), num)
         /\ ~IsZero(num) => Strip(Inc(Dec(num, base), base)) = Strip(num)
Digits == \A i \in 1..Len(num) : num[i] \in 0..(base - 1)
Order == Leq(FeltMax(base), U32Max(base)) /\ Leq(U32Max(base), U64Max(base)) /\ ~Leq(U32Max(base), FeltMax(base))
=============================================================================
