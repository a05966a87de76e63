--------------------------------- MODULE Abi ---------------------------------
(***************************************************************************)
(* Calling a compiled function from outside (property C24): values become  *)
(* slots of the frame and cells in front of it, slots become values again. *)
(* A program is a signature and, for each returned slot, where it comes    *)
(* from: an argument slot or a number. A transition adds a parameter, a    *)
(* result or a call.                                                       *)
(***************************************************************************)
EXTENDS Instr, FiniteSets, Json, SequencesExt
CONSTANTS Depth, Calls
VARIABLES ps, rs, src, calls, phase, n
vars == <<ps, rs, src, calls, phase, n>>
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == R(1..k) = 1
Times(k, F(_)) == FoldLeft(LAMBDA s, j : Append(s, F(j)), <<>>, [j \in 1..k |-> j])
MaxAddr == 268435455
(* ------------------------------------------------------------------- types *)
T(k, e, m) == [k |-> k, e |-> e, n |-> m]
RECURSIVE GT(_)
GT(d) == IF d = 0 \/ Chance(3) THEN T(R({"felt", "bool", "u32", "felt", "u32", "unit"}), <<>>, 0)
         ELSE CHOOSE y \in {CASE k <= 2 -> T("tuple", Times(R(0..3), LAMBDA j : GT(d - 1)), 0) [] k \in {3, 4} -> T("struct", Times(R(0..3), LAMBDA j : GT(d - 1)), 0)
                              [] k = 5 -> T("ptr", <<GT(d - 1)>>, 0) [] k = 6 -> T("lptr", <<GT(d - 1)>>, R(0..3)) [] OTHER -> T("array", <<GT(d - 1)>>, R(0..3)) : k \in {R(1..8)}} : TRUE
RECURSIVE Slots(_), Sum(_)
Sum(ts) == IF ts = <<>> THEN 0 ELSE Slots(ts[1]) + Sum(Tail(ts))
Slots(t) == CASE t.k = "u32" -> 2 [] t.k = "unit" -> 0 [] t.k \in {"tuple", "struct"} -> Sum(t.e) [] OTHER -> 1
(* ------------------------------------------------------------------ values
   numbers by their text: the field element, and the limbs if it is one of the 32-bit numbers *)
Num(s, f, u) == [k |-> "num", s |-> s, f |-> f, u |-> u]
Nums == {Num("0", 0, <<0, 0>>), Num("1", 1, <<1, 0>>), Num("2", 2, <<2, 0>>), Num("65535", 65535, <<65535, 0>>), Num("65536", 65536, <<0, 1>>), Num("2147483646", P - 1, <<65534, 32767>>),
         Num("2147483647", 0, <<65535, 32767>>), Num("2147483648", 1, <<0, 32768>>), Num("4294967295", 1, <<65535, 65535>>), Num("4294967296", 2, <<>>), Num("-1", P - 1, <<>>),
         Num("-2147483647", 0, <<>>), Num("-2147483648", P - 1, <<>>), Num("9223372036854775807", 1, <<>>), Num("-9223372036854775808", P - 2, <<>>), Num("-9223372036854775807", P - 1, <<>>)}
V(k, e) == [k |-> k, e |-> e]
RECURSIVE GV(_)
GV(t) ==
  IF Chance(40) THEN CHOOSE y \in {CASE j = 1 -> V("unit", <<>>) [] j = 2 -> [k |-> "bool", b |-> TRUE] [] j = 3 -> R(Nums) [] j = 4 -> V("list", Times(R(0..3), LAMBDA x : R(Nums))) [] j = 5 -> V("struct", Times(R(0..3), LAMBDA x : R(Nums))) : j \in {R(1..5)}} : TRUE
  ELSE CASE t.k = "felt" -> R(Nums)
         [] t.k = "bool" -> IF Chance(3) THEN R(IF Chance(8) THEN Nums ELSE {x \in Nums : x.s \in {"0", "1"}}) ELSE [k |-> "bool", b |-> R({TRUE, FALSE})]
         [] t.k = "u32" -> R(IF Chance(15) THEN Nums ELSE {x \in Nums : x.u # <<>>})
         [] t.k = "unit" -> V("unit", <<>>)
         [] t.k \in {"tuple", "struct"} -> V(IF t.k = "tuple" THEN "list" ELSE "struct", IF Chance(25) THEN Times(R(0..3), LAMBDA j : R(Nums)) ELSE Times(Len(t.e), LAMBDA j : GV(t.e[j])))
         [] OTHER -> V("list", Times(IF t.k = "ptr" \/ Chance(25) THEN R(0..4) ELSE t.n, LAMBDA j : GV(t.e[IF j > 0 THEN 1 ELSE 2])))
(* ---------------------------------------------------------------- encoding
   s: next free cell, memory, slots so far, error *)
RECURSIVE Enc(_, _, _), EncAll(_, _, _), Lay(_, _, _)
Lay(mem, a, vs) == IF vs = <<>> THEN mem ELSE Lay((a :> vs[1]) @@ mem, a + 1, Tail(vs))
Bad(s) == [s EXCEPT !.err = "type"]
Slot(s, vs) == [s EXCEPT !.dst = @ \o vs]
EncAll(ts, vs, s) == IF ts = <<>> \/ s.err # "" THEN s ELSE EncAll(Tail(ts), Tail(vs), Enc(ts[1], vs[1], s))
Enc(t, v, s) ==
  CASE t.k = "felt" /\ v.k = "num" -> Slot(s, <<v.f>>)
    [] t.k = "bool" /\ v.k = "num" -> IF v.s \in {"0", "1"} THEN Slot(s, <<v.f>>) ELSE Bad(s)
    [] t.k = "bool" /\ v.k = "bool" -> Slot(s, <<IF v.b THEN 1 ELSE 0>>)
    [] t.k = "u32" /\ v.k = "num" -> IF v.u = <<>> THEN Bad(s) ELSE Slot(s, v.u)
    [] t.k = "unit" /\ v.k = "unit" -> s
    [] (t.k = "tuple" /\ v.k = "list") \/ (t.k = "struct" /\ v.k = "struct") -> IF Len(t.e) # Len(v.e) THEN Bad(s) ELSE EncAll(t.e, v.e, s)
    [] t.k \in {"ptr", "lptr", "array"} /\ v.k = "list" ->
         IF t.k # "ptr" /\ Len(v.e) # t.n THEN Bad(s)
         ELSE \* the cells of the elements: what these point to lies before them
              LET es == EncAll([j \in 1..Len(v.e) |-> t.e[1]], v.e, [s EXCEPT !.dst = <<>>]) IN
              IF es.err # "" THEN es
              ELSE [es EXCEPT !.mem = Lay(@, es.cur, es.dst), !.cur = @ + Len(es.dst), !.dst = Append(s.dst, es.cur)]
    [] OTHER -> Bad(s)
(* ------------------------------------------------------------- the program *)
A == Sum(ps)   RN == Sum(rs)
Neg(k) == P - k
Prog == [j \in 1..RN |-> IF src[j].k = "arg" THEN [c |-> 4, x |-> <<Neg(A + RN + 2 - src[j].v), 0, Neg(RN + 2 - (j - 1))>>] ELSE [c |-> 9, x |-> <<src[j].v, Neg(RN + 2 - (j - 1))>>]] \o <<[c |-> 11, x |-> <<>>]>>
L == RN + 1
ProgWord(a) == Encode(OpOf[Prog[a + 1].c], Prog[a + 1].x)[1]
(* ---------------------------------------------------------------- decoding
   m: cells behind the program; r: value, slots used, error *)
Cell(m, a) == IF a < L THEN ProgWord(a) ELSE IF a \in DOMAIN m THEN <<m[a], 0, 0, 0>> ELSE <<0, 0, 0, 0>>
\* reading cell i of a place: a slot of the frame or a cell of memory
ReadAt(m, where, i) == IF where.k = "slots" THEN [v |-> where.v[i + 1], err |-> ""]
                       ELSE LET a == AddF(where.v, i) IN
                            IF a > MaxAddr THEN [v |-> 0, err |-> "bounds"]
                            ELSE LET w == Cell(m, a) IN [v |-> w[1], err |-> IF w[2] # 0 \/ w[3] # 0 \/ w[4] # 0 THEN "project" ELSE ""]
RECURSIVE Dec(_, _, _, _), DecAll(_, _, _, _)
Val(k, v, c) == [v |-> [k |-> k, v |-> v], c |-> c, err |-> ""]
Err(e) == [v |-> [k |-> "none"], c |-> 0, err |-> e]
DecAll(ts, m, w, i) == IF ts = <<>> THEN [v |-> <<>>, c |-> 0, err |-> ""]
                       ELSE LET a == Dec(ts[1], m, w, i) IN
                            IF a.err # "" THEN [v |-> <<>>, c |-> 0, err |-> a.err]
                            ELSE LET b == DecAll(Tail(ts), m, w, i + a.c) IN [v |-> <<a.v>> \o b.v, c |-> a.c + b.c, err |-> b.err]
Dec(t, m, w, i) ==
  CASE t.k = "felt" -> LET r == ReadAt(m, w, i) IN IF r.err # "" THEN Err(r.err) ELSE Val("felt", r.v, 1)
    [] t.k = "bool" -> LET r == ReadAt(m, w, i) IN IF r.err # "" THEN Err(r.err) ELSE IF r.v \notin {0, 1} THEN Err("type") ELSE Val("bool", r.v = 1, 1)
    [] t.k = "u32" -> LET a == ReadAt(m, w, i) b == ReadAt(m, w, i + 1) IN
                      IF a.err # "" THEN Err(a.err) ELSE IF b.err # "" THEN Err(b.err) ELSE IF IsU(<<a.v, b.v>>) THEN Val("u32", <<a.v, b.v>>, 2) ELSE Err("type")
    [] t.k = "unit" -> Val("unit", 0, 0)
    [] t.k \in {"tuple", "struct"} -> LET r == DecAll(t.e, m, w, i) IN IF r.err # "" THEN Err(r.err) ELSE Val(t.k, r.v, r.c)
    [] t.k = "ptr" -> LET r == ReadAt(m, w, i) IN IF r.err # "" THEN Err(r.err) ELSE Val("ptr", r.v, 1)
    [] OTHER -> LET r == ReadAt(m, w, i) IN
                IF r.err # "" THEN Err(r.err)
                ELSE LET d == DecAll([j \in 1..t.n |-> t.e[1]], m, [k |-> "mem", v |-> r.v], 0) IN IF d.err # "" THEN Err(d.err) ELSE Val("array", d.v, 1)
(* -------------------------------------------------------------------- calls *)
Outcome(vs) ==
  IF Len(vs) # Len(ps) THEN [err |-> "count"]
  ELSE LET s == EncAll(ps, vs, [cur |-> L, mem |-> <<>>, dst |-> <<>>, err |-> ""]) IN
       IF s.err # "" THEN [err |-> s.err]
       ELSE LET out == [j \in 1..RN |-> IF src[j].k = "arg" THEN s.dst[src[j].v + 1] ELSE src[j].v]
                base == s.cur
                \* behind the arrays: arguments, results, the frame the call returns to
                before == Lay(s.mem, base, s.dst)
                fp0 == base + A + RN + 2
                m == Lay(Lay(before, base + A, out), base + A + RN, <<fp0, L>>)
                d == DecAll(rs, m, [k |-> "slots", v |-> out], 0)
            IN [err |-> d.err, v |-> d.v, input |-> base, mem |-> Lay(before, base + A + RN, <<fp0, L>>), slots |-> s.dst]
(* --------------------------------------------------------------- transitions *)
Init == ps = <<>> /\ rs = <<>> /\ src = <<>> /\ calls = <<>> /\ phase = "params" /\ n = 0
Param == phase = "params" /\ Len(ps) < 3 /\ ps' = Append(ps, GT(Depth)) /\ n' = n + 1 /\ UNCHANGED <<rs, src, calls, phase>>
\* the function gives its arguments back, or something of another type
Params == /\ phase = "params" /\ phase' = "results" /\ n' = n + 1 /\ UNCHANGED <<ps, calls>>
          /\ IF Chance(2) THEN rs' = ps /\ src' = [j \in 1..A |-> [k |-> "arg", v |-> j - 1]] ELSE UNCHANGED <<rs, src>>
Source == IF A > 0 /\ ~Chance(4) THEN [k |-> "arg", v |-> R(0..(A - 1))] ELSE [k |-> "num", v |-> R({0, 1, 2, 65535, 65536, P - 1, L, MaxAddr - 1, MaxAddr, 200})]
Result == /\ phase = "results" /\ (rs # ps \/ ps = <<>>) /\ Len(rs) < 3
          /\ \E t \in {GT(Depth)} : rs' = Append(rs, t) /\ src' = src \o Times(Slots(t), LAMBDA j : Source)
          /\ n' = n + 1 /\ UNCHANGED <<ps, calls, phase>>
Results == phase = "results" /\ phase' = "calls" /\ n' = n + 1 /\ UNCHANGED <<ps, rs, src, calls>>
Call == /\ phase = "calls" /\ Len(calls) < Calls
        /\ \E vs \in {IF Chance(30) THEN Times(R(0..4), LAMBDA j : R(Nums)) ELSE Times(Len(ps), LAMBDA j : GV(ps[j]))} : calls' = Append(calls, [args |-> vs, out |-> Outcome(vs)])
        /\ n' = n + 1 /\ UNCHANGED <<ps, rs, src, phase>>
Done == phase = "calls" /\ Len(calls) = Calls /\ phase' = "done" /\ n' = n + 1 /\ UNCHANGED <<ps, rs, src, calls>>
Next == Param \/ Params \/ Result \/ Results \/ Call \/ Done
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- what holds *)
\* does a decoded value say what the argument said (pointers without a length only say where)
RECURSIVE Says(_, _, _)
Says(t, v, w) ==
  CASE t.k = "felt" -> w.v = v.f [] t.k = "u32" -> w.v = v.u [] t.k = "bool" -> w.v = (IF v.k = "bool" THEN v.b ELSE v.f = 1) [] t.k \in {"unit", "ptr"} -> TRUE
    [] t.k \in {"tuple", "struct"} -> Len(w.v) = Len(v.e) /\ \A j \in 1..Len(v.e) : Says(t.e[j], v.e[j], w.v[j])
    [] OTHER -> Len(w.v) = Len(v.e) /\ \A j \in 1..Len(v.e) : Says(t.e[1], v.e[j], w.v[j])
Echo == rs = ps /\ src = [j \in 1..A |-> [k |-> "arg", v |-> j - 1]]
RoundTrip == Echo => \A k \in 1..Len(calls) : LET o == calls[k].out IN
               (o.err \notin {"count", "type"} => o.err = "" /\ \A j \in 1..Len(ps) : Says(ps[j], calls[k].args[j], o.v[j]))
\* an argument takes the slots of its type
Sizes == \A k \in 1..Len(calls) : "slots" \in DOMAIN calls[k].out => Len(calls[k].out.slots) = A
EmitCase == phase = "done" => PrintT("CASE " \o ToJson([ps |-> ps, rs |-> rs, prog |-> Prog, len |-> L, a |-> A, r |-> RN, calls |-> calls]))
=============================================================================
