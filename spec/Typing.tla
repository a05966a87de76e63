------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* The typing rules of Cairo-M (properties C07 and C08).                   *)
(*                                                                         *)
(* A behaviour builds one expression bottom-up.  The state holds a pool of *)
(* typed expressions (at first the variables, constants, functions and     *)
(* literals of a fixed environment) and the expression being grown, `cur`. *)
(* Every step applies one rule of the type system to cur and to members of *)
(* the pool: Rule(args) gives the type of the result, or the place of the  *)
(* one error the rule demands.  At the end the expression is put into a    *)
(* statement (let, annotated let, assignment, return, condition,           *)
(* destructuring, const ...), whose own rule is applied in turn.  The last *)
(* state therefore contains the program, the type of its expression, and   *)
(* the error the compiler owes the user, if any.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Randomization

CONSTANTS MaxSteps, MaxToks, Kinds, Contexts, Sim, Modes, Wraps, Few

VARIABLES pool, cur, nst, mode, out
vars == <<pool, cur, nst, mode, out>>

Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S

\* ------------------------------------------------------------------ types
T0(s, k, e, n) == [s |-> s, k |-> k, e |-> e, n |-> n]
Felt == T0("felt", "felt", <<>>, 0)
U32  == T0("u32", "u32", <<>>, 0)
Bool == T0("bool", "bool", <<>>, 0)
Lit  == T0("felt", "lit", <<>>, 0)      \* an integer literal whose type its context decides
Unit == T0("()", "tup", <<>>, 0)
ErrT == T0("error", "err", <<>>, 0)
RECURSIVE JoinS(_)
JoinS(es) == IF Len(es) = 1 THEN es[1].s ELSE es[1].s \o ", " \o JoinS(Tail(es))
Tup(es) == T0("(" \o JoinS(es) \o ")", "tup", es, Len(es))
Arr(t, n) == T0("[" \o t.s \o "; " \o ToString(n) \o "]", "arr", <<t>>, n)
Ptr(t) == T0(t.s \o "*", "ptr", <<t>>, 0)
Struct(nm) == T0(nm, "struct", <<>>, 0)
S == Struct("S")   Q == Struct("Q")   P == Struct("P")
Fn(nm) == T0("function", nm, <<>>, 0)

FU == Tup(<<Felt, U32>>)
\* the environment: structs, functions (P, i1, i2 are imported)
Fields(nm) == CASE nm = "S" -> <<<<"x", Felt>>, <<"y", U32>>, <<"k", Bool>>>>
                [] nm = "Q" -> <<<<"s", S>>, <<"t", FU>>, <<"a", Arr(Felt, 3)>>>>
                [] OTHER    -> <<<<"x", U32>>, <<"c", Bool>>>>
FnNames == {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "i1", "i2"}
Params(f) == CASE f = "h0" -> <<>>
               [] f = "h1" -> <<Felt>>
               [] f = "h2" -> <<U32, Bool>>
               [] f = "h3" -> <<S, FU>>
               [] f = "h4" -> <<Arr(U32, 2), Felt>>
               [] f = "h5" -> <<Bool>>
               [] f = "h6" -> <<Ptr(Felt), Q, U32>>
               [] f = "i1" -> <<U32>>
               [] OTHER    -> <<P, Felt>>
Ret(f) == CASE f = "h0" -> Felt [] f = "h1" -> U32 [] f = "h2" -> S [] f = "h3" -> Arr(Felt, 3)
            [] f = "h4" -> Ptr(U32) [] f = "h5" -> Unit [] f = "h6" -> Bool [] f = "i1" -> Felt [] OTHER -> P

Numeric(t) == t.k \in {"felt", "u32"}
\* a value of type t (literals inside it still open) where type T is required
RECURSIVE Fits(_, _)
Fits(t, T) == IF t.k = "lit" THEN Numeric(T) \/ T.k = "lit"
              ELSE IF t.k \in {"tup", "arr"} /\ T.k = t.k /\ t.n = T.n
                   THEN \A i \in 1..Len(t.e) : Fits(t.e[i], T.e[i])
              ELSE t.s = T.s /\ (t.k = T.k)
RECURSIVE HasLit(_)
HasLit(t) == t.k = "lit" \/ \E i \in 1..Len(t.e) : HasLit(t.e[i])
\* two types for which every use agrees: no open literal
Closed(t) == ~HasLit(t)

\* ------------------------------------------------------------ expressions
(* ts tokens, ty type, lv binding level, err {} or the owed error as
   <<codes, token>> (its place relative to ts; two alternatives at most), bare: a literal token itself,
   hl: an unsuffixed literal occurs somewhere inside                        *)
E(ts, ty, lv) == [ts |-> ts, ty |-> ty, lv |-> lv, err |-> {}, bare |-> FALSE, hl |-> FALSE]
V(n, ty) == E(<<n>>, ty, 10)
Leaves == IF Few THEN
  <<V("f", Felt), V("u", U32), V("b", Bool), V("s", S), V("t", FU), V("a", Arr(Felt, 3)), V("r", Ptr(U32)), V("IK", U32), E(<<"9felt">>, Felt, 10)>>
  ELSE
  <<V("f", Felt), V("g", Felt), V("u", U32), V("v", U32), V("b", Bool), V("c", Bool), V("s", S), V("q", Q), V("pp", P),
    V("t", FU), V("w", Tup(<<Tup(<<U32, Bool>>), S>>)), V("a", Arr(Felt, 3)), V("d", Arr(U32, 2)), V("e", Arr(S, 2)),
    V("p", Ptr(Felt)), V("r", Ptr(U32)), V("z", Ptr(S)), V("tb", Tup(<<Arr(Felt, 3), Felt>>)),
    V("KF", Felt), V("KU", U32), V("IK", U32),
    V("true", Bool), E(<<"7u32">>, U32, 10), E(<<"9felt">>, Felt, 10)>>
LitE(v) == [ts |-> <<v>>, ty |-> Lit, lv |-> 10, err |-> {}, bare |-> TRUE, hl |-> TRUE]
Lits == IF Few THEN <<LitE("2"), LitE("3")>> ELSE <<LitE("7"), LitE("0"), LitE("1"), LitE("2"), LitE("3")>>
LitVal(e) == IF Len(e.ts) # 1 THEN -1
             ELSE CASE e.ts[1] = "0" -> 0 [] e.ts[1] = "1" -> 1 [] e.ts[1] = "2" -> 2 [] e.ts[1] = "3" -> 3
                    [] e.ts[1] = "7" -> 7 [] e.ts[1] = "9felt" -> 9 [] OTHER -> -1
FnLeaves == {"h0", "h1", "h2", "h3", "h4", "h5", "h6", "i1", "i2"}

Paren(e) == [e EXCEPT !.ts = <<"(">> \o e.ts \o <<")">>, !.lv = 10, !.bare = FALSE,
                      !.err = {<<x[1], x[2] + 1>> : x \in e.err}]
At(e, lv) == IF e.lv < lv THEN Paren(e) ELSE e
Shift(err, k) == {<<x[1], x[2] + k>> : x \in err}

\* put parts together: pieces is a sequence of either token sequences or expressions
\* (as records with field ts); errors move along
RECURSIVE Cat(_)
Cat(ps) == IF Len(ps) = 0 THEN [ts |-> <<>>, err |-> {}, hl |-> FALSE]
           ELSE LET r == Cat(SubSeq(ps, 1, Len(ps) - 1))   l == ps[Len(ps)]
                IN [ts |-> r.ts \o l.ts, err |-> r.err \cup Shift(l.err, Len(r.ts)), hl |-> r.hl \/ l.hl]
K(ts) == [ts |-> ts, err |-> {}, hl |-> FALSE]
\* the result: type ty if nothing is wrong; own is the error this rule itself finds
Mk(ps, ty, lv, own) ==
  LET c == Cat(ps) IN
  [ts |-> c.ts, ty |-> IF c.err = {} /\ own = {} THEN ty ELSE ErrT, lv |-> lv,
   err |-> IF c.err # {} THEN c.err ELSE own, bare |-> FALSE, hl |-> c.hl]
OK(e) == e.err = {}
Bad(codes, tok) == {<<codes, tok>>}
TM == <<"TypeMismatch">>

BinOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"}
BinLv(op) == CASE op \in {"&&", "||"} -> 1 [] op \in {"&", "|", "^"} -> 3
               [] op \in {"<", ">", "<=", ">=", "==", "!="} -> 4 [] op \in {"+", "-"} -> 5 [] OTHER -> 6
Commut(op) == op \in {"+", "*", "==", "!="}
\* operand types an operator accepts
Accepts(op) == CASE op \in {"+", "-", "*", "/"} -> {"felt", "u32"}
                 [] op \in {"==", "!="} -> {"felt", "u32", "bool"}
                 [] op \in {"&&", "||"} -> {"bool"}
                 [] OTHER -> {"u32"}
BinRes(op, k) == IF op \in {"<", ">", "<=", ">=", "==", "!=", "&&", "||"} THEN Bool
                 ELSE IF k = "u32" THEN U32 ELSE Felt
\* combinations whose meaning hinges on how far literal inference goes are not claimed
BinClaimed(op, l, r) ==
  /\ (l.ty.k = "lit" /\ r.ty.k = "lit") => op \in {"+", "-", "*", "/", "==", "!="}
  /\ (l.ty.k = "lit" /\ r.ty.k = "u32") => (l.bare /\ Commut(op))
Bin(op, l0, r0) ==
  LET lv == BinLv(op)
      l == At(l0, IF lv >= 5 THEN lv ELSE lv + 1)
      r == At(r0, lv + 1)
      both == l0.ty.k = "lit" /\ r0.ty.k = "lit"
      lk == IF l0.ty.k = "lit" THEN (IF r0.ty.k = "u32" THEN "u32" ELSE "felt") ELSE l0.ty.k
      rk == IF r0.ty.k = "lit" THEN (IF lk \in {"u32", "felt"} THEN lk ELSE "felt") ELSE r0.ty.k
      own == IF lk \notin Accepts(op)
             THEN Bad(TM, 1) \cup (IF l0.hl /\ rk # lk THEN Bad(TM, Len(l.ts) + 2) ELSE {})   \* a literal may also take the other type
             ELSE IF rk # lk THEN Bad(TM, Len(l.ts) + 2) ELSE {}
      res == IF both /\ op \in {"+", "-", "*", "/"} THEN Lit ELSE BinRes(op, lk)
  IN Mk(<<l, K(<<op>>), r>>, res, lv, own)

Un(op, x0) ==
  LET x == At(x0, 8)
      ok == IF op = "!" THEN x0.ty.k = "bool" ELSE x0.ty.k \in {"felt", "u32", "lit"}
  IN Mk(<<K(<<op>>), x>>, x0.ty, 8, IF ok THEN {} ELSE Bad(TM, 2))

CastTo == {"felt", "u32", "bool", "S"}
Cast(x0, T) ==
  LET x == At(x0, 9)
  IN Mk(<<x, K(<<"as", T>>)>>, Felt, 7, IF x0.ty.k = "u32" /\ T = "felt" THEN {} ELSE Bad(TM, 1))

\* postfix operands: literals and struct literals in parentheses
Post(x) == IF x.bare \/ x.lv < 9 \/ x.ts[Len(x.ts)] = "}" THEN Paren(x) ELSE x

RECURSIVE ArgPieces(_)
ArgPieces(as) == IF Len(as) = 0 THEN <<>> ELSE IF Len(as) = 1 THEN <<as[1]>>
                 ELSE ArgPieces(SubSeq(as, 1, Len(as) - 1)) \o <<K(<<",">>), as[Len(as)]>>
ArgStart(as, i) == IF i = 1 THEN 1 ELSE Len(Cat(ArgPieces(SubSeq(as, 1, i - 1))).ts) + 2
FirstMisfit(as, ps) == LET M == {i \in 1..Len(as) : ~Fits(as[i].ty, ps[i]) /\ as[i].ty.k # "err"}
                       IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j
Call(f, as) ==
  LET ps == Params(f)
      m == IF Len(as) = Len(ps) THEN FirstMisfit(as, ps) ELSE 0
      own == IF Len(as) # Len(ps) THEN Bad(<<"InvalidFunctionCall">>, 1)
             ELSE IF m > 0 THEN Bad(TM, 2 + ArgStart(as, m)) ELSE {}
  IN Mk(<<K(<<f, "(">>)>> \o ArgPieces(as) \o <<K(<<")">>)>>, Ret(f), 9, own)
CallValue(x0, as) ==      \* calling something that is not a function
  LET x == Post(x0) IN Mk(<<x, K(<<"(">>)>> \o ArgPieces(as) \o <<K(<<")">>)>>, ErrT, 9, Bad(<<"InvalidFunctionCall">>, 1))

Member(x0, fl) ==
  LET x == Post(x0)
      fs == IF x0.ty.k = "struct" THEN Fields(x0.ty.s) ELSE <<>>
      M == {i \in 1..Len(fs) : fs[i][1] = fl}
      own == IF x0.ty.k # "struct" THEN Bad(<<"InvalidFieldAccess">>, 1)
             ELSE IF M = {} THEN Bad(<<"InvalidFieldAccess">>, Len(x.ts) + 2) ELSE {}
  IN Mk(<<x, K(<<".", fl>>)>>, IF M = {} THEN ErrT ELSE fs[CHOOSE i \in M : TRUE][2], 9, own)

Index(x0, i) ==
  LET x == Post(x0)
      own == IF x0.ty.k = "tup" THEN Bad(<<"InvalidTupleIndexAccess">>, 1)
             ELSE IF x0.ty.k \notin {"arr", "ptr"} THEN Bad(<<"InvalidIndexAccess">>, 1)
             ELSE IF i.ty.k \notin {"felt", "lit", "err"} THEN Bad(<<"InvalidIndexType">>, Len(x.ts) + 2)
             ELSE IF x0.ty.k = "arr" /\ LitVal(i) >= x0.ty.n THEN Bad(<<"IndexOutOfBounds">>, Len(x.ts) + 2)
             ELSE {}
  IN Mk(<<x, K(<<"[">>), i, K(<<"]">>)>>, IF x0.ty.k \in {"arr", "ptr"} THEN x0.ty.e[1] ELSE ErrT, 9, own)

TupIx(x0, n) ==
  LET x == Post(x0)
      own == IF x0.ty.k # "tup" THEN Bad(<<"InvalidTupleIndexAccess">>, 1)
             ELSE IF n >= x0.ty.n THEN Bad(<<"TupleIndexOutOfBounds">>, 1) ELSE {}
  IN Mk(<<x, K(<<".", ToString(n)>>)>>, IF x0.ty.k = "tup" /\ n < x0.ty.n THEN x0.ty.e[n + 1] ELSE ErrT, 9, own)

TupLit(as) == Mk(<<K(<<"(">>)>> \o ArgPieces(as) \o <<K(<<")">>)>>, Tup([i \in 1..Len(as) |-> as[i].ty]), 10, {})
\* the first element decides; the others have to fit it
ArrLit(as) ==
  LET M == {i \in 2..Len(as) : ~Fits(as[i].ty, as[1].ty) /\ as[i].ty.k # "err"}
      m == CHOOSE i \in M : \A j \in M : i <= j
  IN Mk(<<K(<<"[">>)>> \o ArgPieces(as) \o <<K(<<"]">>)>>, Arr(as[1].ty, Len(as)), 10,
        IF M = {} THEN {} ELSE Bad(TM, 1 + ArgStart(as, m)))
ArrRep(x, n) == Mk(<<K(<<"[">>), x, K(<<";", ToString(n), "]">>)>>, Arr(x.ty, n), 10, {})

StructLit(nm, as, how) ==    \* how: "ok", "missing" (last field left out), "unknown" (last field misspelt)
  LET fs == Fields(nm)
      n == IF how = "missing" THEN Len(fs) - 1 ELSE Len(fs)
      fname(i) == IF how = "unknown" /\ i = Len(fs) THEN "nope" ELSE fs[i][1]
      piece(i) == <<K(<<fname(i), ":">>), as[i], K(<<",">>)>>
      RECURSIVE P0(_)
      P0(i) == IF i = 0 THEN <<K(<<nm, "{">>)>> ELSE P0(i - 1) \o piece(i)
      valpos(i) == Len(Cat(P0(i - 1)).ts) + 3
      m == LET M == {i \in 1..n : how = "ok" /\ ~Fits(as[i].ty, fs[i][2]) /\ as[i].ty.k # "err"}
           IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j
      own == IF how # "ok" THEN Bad(<<"InvalidStructLiteral">>, 1)
             ELSE IF m > 0 THEN Bad(TM, valpos(m)) ELSE {}
  IN Mk(P0(n) \o <<K(<<"}">>)>>, Struct(nm), 10, own)

New(tn, c) ==
  LET t == CASE tn = "felt" -> Felt [] tn = "u32" -> U32 [] OTHER -> S
  IN Mk(<<K(<<"new", tn, "[">>), c, K(<<"]">>)>>, Ptr(t), 9,
        IF c.ty.k \in {"felt", "lit", "err"} THEN {} ELSE Bad(TM, 4))

\* --------------------------------------------------------------- behaviour
AllPool == {pool[i] : i \in 1..Len(pool)}
Take(Q0) == Pick(Q0)
Having(k) == {x \in AllPool : x.ty.k = k /\ OK(x)}
Fitting(T) == {x \in AllPool : Fits(x.ty, T) /\ OK(x)}
Operands == {x \in AllPool : OK(x) /\ Closed(x.ty)}
C == cur

\* in mode "good" only results without error are kept; in mode "bad" an error is
\* made once (and only once) and then carried outwards
Grow(x) ==
  /\ mode = "good" => OK(x)
  /\ Len(x.ts) <= MaxToks
  /\ cur' = x
  /\ pool' = IF OK(x) /\ Len(x.ts) <= 14 /\ Len(pool) < 34 THEN Append(pool, x) ELSE pool
  /\ nst' = nst + 1
  /\ UNCHANGED <<mode, out>>

Sel(k) == IF mode = "good" THEN k ELSE "any"
\* an operand that fits T, or (bad mode, nothing wrong yet) any operand
Arg(T) == LET Ft == Fitting(T) IN
          IF mode = "bad" /\ OK(C) THEN (IF Sim THEN IF RandomElement(1..3) = 1 THEN Operands ELSE Ft ELSE Operands) ELSE Ft

Going == out = <<>> /\ nst < MaxSteps
StepBin ==
  /\ Going /\ "bin" \in Kinds
  /\ \E op \in Take(IF mode = "good" /\ Sim /\ OK(C)
                    THEN {o \in BinOps : (IF C.ty.k = "lit" THEN "felt" ELSE C.ty.k) \in Accepts(o)} ELSE BinOps) :
     \E left \in Pick({TRUE, FALSE}) :
     \E y \in Take(IF mode = "good" /\ Sim THEN {x \in AllPool : OK(x) /\ (x.ty.k = C.ty.k \/ x.ty.k = "lit" \/ C.ty.k = "lit")}
                   ELSE {x \in AllPool : OK(x)}) :
       /\ BinClaimed(op, IF left THEN C ELSE y, IF left THEN y ELSE C)
       /\ Grow(IF left THEN Bin(op, C, y) ELSE Bin(op, y, C))
StepUn == Going /\ "un" \in Kinds /\ \E op \in Pick({"-", "!"}) : Grow(Un(op, C))
\* (an open literal takes the type of its context before it is cast: not claimed)
StepCast == Going /\ "cast" \in Kinds /\ ~HasLit(C.ty) /\ \E T \in Pick(CastTo) : Grow(Cast(C, T))
StepCall ==
  /\ Going /\ "call" \in Kinds
  /\ \E f \in Pick(FnLeaves) :
     LET ps == Params(f) n == Len(ps) IN
       \E at \in Pick(IF n = 0 THEN {0} ELSE 1..n) :
       \E x1 \in Take(IF n >= 1 /\ at # 1 THEN Arg(ps[1]) ELSE {C}),
          x2 \in Take(IF n >= 2 /\ at # 2 THEN Arg(ps[2]) ELSE {C}),
          x3 \in Take(IF n >= 3 /\ at # 3 THEN Arg(ps[3]) ELSE {C}) :
         Grow(Call(f, SubSeq(<<x1, x2, x3>>, 1, n)))
StepArity ==
  /\ Going /\ "call" \in Kinds /\ mode = "bad" /\ OK(C)
  /\ \E f \in Pick(FnLeaves), more \in Pick({TRUE, FALSE}) :
       LET n == Len(Params(f))  m == IF more \/ n = 0 THEN n + 1 ELSE n - 1
       IN Grow(Call(f, [i \in 1..m |-> C]))
StepCallValue ==
  /\ Going /\ "call" \in Kinds /\ mode = "bad" /\ OK(C)
  /\ \E y \in Take(Operands) : Grow(CallValue(C, <<y>>))
StepMember ==
  /\ Going /\ "mem" \in Kinds
  /\ \E fl \in Pick(IF mode = "good" /\ C.ty.k = "struct" THEN {Fields(C.ty.s)[i][1] : i \in 1..Len(Fields(C.ty.s))}
                    ELSE {"x", "y", "k", "s", "t", "a", "c"}) : Grow(Member(C, fl))
StepIndex ==
  /\ Going /\ "idx" \in Kinds
  /\ \/ \E i \in Take(IF mode = "good" THEN Fitting(Felt) ELSE {x \in AllPool : OK(x)}) :
          (C.ty.k \in {"arr", "tup"} => Closed(C.ty)) /\ Grow(Index(C, i))
     \/ \E x \in Take(Having("arr") \cup Having("ptr")) : Closed(x.ty) /\ Grow(Index(x, C))
StepTupIx == Going /\ "tix" \in Kinds /\ Closed(C.ty) /\ \E n \in Pick(0..2) : Grow(TupIx(C, n))
StepTup ==
  /\ Going /\ "tup" \in Kinds
  /\ \E y \in Take({x \in AllPool : OK(x)}), z \in Take({x \in AllPool : OK(x)}), sh \in Pick(1..4) :
       Grow(TupLit(CASE sh = 1 -> <<C, y>> [] sh = 2 -> <<y, C>> [] sh = 3 -> <<y, C, z>> [] OTHER -> <<C, y, z>>))
ElemOK(t) == t.k \notin {"arr", "err"} 
StepArr ==
  /\ Going /\ "arr" \in Kinds /\ C.ty.k \notin {"arr"}
  /\ \E y \in Take({x \in (IF mode = "good" THEN Fitting(C.ty) ELSE {x \in AllPool : OK(x)}) : x.ty.k # "arr"}), sh \in Pick(1..4), n \in Pick(1..4) :
       /\ (sh <= 2 /\ HasLit(C.ty)) => HasLit(y.ty)
       /\ (sh = 3 /\ HasLit(y.ty)) => HasLit(C.ty)
       /\ Grow(CASE sh = 1 -> ArrLit(<<C, y>>) [] sh = 2 -> ArrLit(<<C, y, y>>) [] sh = 3 -> ArrLit(<<y, C>>) [] OTHER -> ArrRep(C, n))
StepStruct ==
  /\ Going /\ "lit" \in Kinds
  /\ \E nm \in Pick({"S", "Q", "P"}) :
     LET fs == Fields(nm) n == Len(fs) IN
       \E at \in Pick(1..n), how \in Pick(IF mode = "good" \/ ~OK(C) THEN {"ok"} ELSE {"ok", "missing", "unknown"}) :
       \E x1 \in Take(IF at # 1 THEN Arg(fs[1][2]) ELSE {C}),
          x2 \in Take(IF at # 2 THEN Arg(fs[2][2]) ELSE {C}),
          x3 \in Take(IF n >= 3 /\ at # 3 THEN Arg(fs[3][2]) ELSE {C}) :
         Grow(StructLit(nm, SubSeq(<<x1, x2, x3>>, 1, n), how))
StepNew == Going /\ "new" \in Kinds /\ \E tn \in Pick({"felt", "u32", "S"}) : Grow(New(tn, C))

\* near misses: errors that differ from a correct use in one detail
StepNear ==
  /\ Going /\ mode = "bad" /\ OK(C)
  /\ \/ /\ "idx" \in Kinds
        /\ \E x \in Take({y \in Having("arr") : Closed(y.ty)}), l \in Pick({LitE("2"), LitE("3"), LitE("7")}) :
             l \in AllPool /\ Grow(Index(x, l))
     \/ /\ "tix" \in Kinds
        /\ \E x \in Take({y \in Having("tup") : Closed(y.ty)}) : Grow(TupIx(x, x.ty.n))
     \/ /\ "bin" \in Kinds
        /\ \E op \in Pick(BinOps), x \in Take(Having("felt") \cup Having("u32") \cup Having("bool")),
              y \in Take(Having("felt") \cup Having("u32") \cup Having("bool")) : Grow(Bin(op, x, y))
     \/ /\ "cast" \in Kinds /\ \E T \in Pick(CastTo), x \in Take(Having("felt") \cup Having("u32") \cup Having("bool")) : Grow(Cast(x, T))
     \/ /\ "un" \in Kinds /\ \E op \in Pick({"-", "!"}), x \in Take(Having("felt") \cup Having("u32") \cup Having("bool")) : Grow(Un(op, x))
     \/ /\ "arr" \in Kinds
        /\ \E x \in Take(Having("felt") \cup Having("u32")), y \in Take(Having("felt") \cup Having("u32") \cup Having("ptr")), k \in Pick(1..3) :
             Grow(ArrLit(CASE k = 1 -> <<x, y>> [] k = 2 -> <<x, x, y>> [] OTHER -> <<x, x, x, y>>))
     \/ /\ "call" \in Kinds
        /\ \E f \in Pick(FnLeaves \ {"h0"}) :
           LET ps == Params(f) n == Len(ps) IN
           \E at \in Pick(1..n), wrong \in Take(Operands) :
           \E x1 \in Take(Fitting(ps[1])), x2 \in Take(IF n >= 2 THEN Fitting(ps[2]) ELSE {wrong}), x3 \in Take(IF n >= 3 THEN Fitting(ps[3]) ELSE {wrong}) :
             Grow(Call(f, SubSeq([<<x1, x2, x3>> EXCEPT ![at] = wrong], 1, n)))
     \/ /\ "lit" \in Kinds
        /\ \E nm \in Pick({"S", "Q", "P"}) :
           LET fs == Fields(nm) n == Len(fs) IN
           \E at \in Pick(1..n), wrong \in Take(Operands) :
           \E x1 \in Take(Fitting(fs[1][2])), x2 \in Take(Fitting(fs[2][2])), x3 \in Take(IF n >= 3 THEN Fitting(fs[3][2]) ELSE {wrong}) :
             Grow(StructLit(nm, SubSeq([<<x1, x2, x3>> EXCEPT ![at] = wrong], 1, n), "ok"))

\* ---------------------------------------------------------------- contexts
(* Where the statement stands: prefix and suffix tokens of the body.        *)
WrapPre(w) == CASE w = "none" -> <<>>
                [] w = "block" -> <<"{">>
                [] w = "then" -> <<"if", "(", "b", ")", "{">>
                [] w = "else" -> <<"if", "(", "b", ")", "{", "}", "else", "{">>
                [] w = "elif" -> <<"if", "(", "b", ")", "{", "}", "else", "if", "(", "c", ")", "{">>
                [] w = "loop" -> <<"loop", "{">>
                [] w = "while" -> <<"while", "(", "b", ")", "{">>
                [] w = "for" -> <<"for", "(", "let", "ii", ":", "felt", "=", "0", ";", "ii", "!=", "3", ";", "ii", "=", "ii", "+", "1", ")", "{">>
                [] w = "deep" -> <<"{", "loop", "{", "if", "(", "c", ")", "{", "while", "(", "c", ")", "{">>
                [] w = "barethen" -> <<"if", "(", "b", ")">>
                [] OTHER -> <<"{">>
WrapSuf(w) == CASE w \in {"none", "barethen"} -> <<>> [] w = "deep" -> <<"}", "}", "}", "}">> [] OTHER -> <<"}">>

AnnTypes == {Felt, U32, Bool, S, Q, P, FU, Arr(Felt, 3), Arr(U32, 2), Ptr(Felt), Ptr(U32),
             Tup(<<Tup(<<U32, Bool>>), S>>), Arr(S, 2), Tup(<<U32, U32>>), Tup(<<Felt, Felt>>), Arr(U32, 3), Arr(Felt, 2)}
RECURSIVE TyToks(_)
TyToks(t) == CASE t.k = "arr" -> <<"[">> \o TyToks(t.e[1]) \o <<";", ToString(t.n), "]">>
               [] t.k = "ptr" -> TyToks(t.e[1]) \o <<"*">>
               [] t.k = "tup" -> (IF t.n = 0 THEN <<"(", ")">>
                                  ELSE <<"(">> \o FoldLeft(LAMBDA x, y : x \o (IF Len(x) = 0 THEN <<>> ELSE <<",">>) \o TyToks(y), <<>>, t.e) \o <<")">>)
               [] OTHER -> <<t.s>>

LVal(toks, ty, kind) == [ts |-> toks, ty |-> ty, kind |-> kind]
LVals ==
  {LVal(<<"f">>, Felt, "ok"), LVal(<<"u">>, U32, "ok"), LVal(<<"b">>, Bool, "ok"), LVal(<<"s">>, S, "ok"), LVal(<<"t">>, FU, "ok"),
   LVal(<<"a">>, Arr(Felt, 3), "ok"), LVal(<<"p">>, Ptr(Felt), "ok"),
   LVal(<<"s", ".", "x">>, Felt, "ok"), LVal(<<"s", ".", "y">>, U32, "ok"), LVal(<<"q", ".", "s", ".", "k">>, Bool, "ok"),
   LVal(<<"q", ".", "t">>, FU, "ok"), LVal(<<"q", ".", "a", "[", "2", "]">>, Felt, "ok"),
   LVal(<<"a", "[", "1", "]">>, Felt, "ok"), LVal(<<"d", "[", "f", "]">>, U32, "ok"), LVal(<<"e", "[", "0", "]">>, S, "ok"),
   LVal(<<"e", "[", "0", "]", ".", "y">>, U32, "ok"), LVal(<<"p", "[", "f", "]">>, Felt, "ok"), LVal(<<"z", "[", "1", "]", ".", "k">>, Bool, "ok"),
   LVal(<<"t", ".", "1">>, U32, "ok"), LVal(<<"w", ".", "0", ".", "1">>, Bool, "ok"), LVal(<<"w", ".", "1", ".", "x">>, Felt, "ok"),
   LVal(<<"KF">>, Felt, "const"), LVal(<<"KU">>, U32, "const"), LVal(<<"IK">>, U32, "const"),
   LVal(<<"KA", "[", "1", "]">>, Felt, "const"), LVal(<<"KS", ".", "y">>, U32, "const"), LVal(<<"KT", ".", "0">>, Felt, "const"),
   LVal(<<"IA", "[", "0", "]">>, U32, "const"), LVal(<<"IS", ".", "x">>, U32, "const"),
   LVal(<<"(", "KS", ")", ".", "x">>, Felt, "const"), LVal(<<"KE", "[", "1", "]", ".", "k">>, Bool, "const"),
   LVal(<<"LK">>, Felt, "const"), LVal(<<"LA", "[", "f", "]">>, U32, "const"),
   LVal(<<"3">>, Felt, "bad"), LVal(<<"h0", "(", ")">>, Felt, "bad"), LVal(<<"f", "+", "g">>, Felt, "bad"), LVal(<<"-", "f">>, Felt, "bad"),
   LVal(<<"u", "as", "felt">>, Felt, "bad"), LVal(<<"[", "f", ",", "g", "]">>, Arr(Felt, 2), "bad"), LVal(<<"true">>, Bool, "bad")}

\* every path of up to three accesses from a variable or a constant
Bases == {LVal(<<"s">>, S, "ok"), LVal(<<"q">>, Q, "ok"), LVal(<<"t">>, FU, "ok"), LVal(<<"w">>, Tup(<<Tup(<<U32, Bool>>), S>>), "ok"), LVal(<<"a">>, Arr(Felt, 3), "ok"),
          LVal(<<"e">>, Arr(S, 2), "ok"), LVal(<<"p">>, Ptr(Felt), "ok"), LVal(<<"z">>, Ptr(S), "ok"), LVal(<<"tb">>, Tup(<<Arr(Felt, 3), Felt>>), "ok"),
          LVal(<<"KA">>, Arr(Felt, 3), "const"), LVal(<<"KS">>, S, "const"), LVal(<<"KT">>, FU, "const"), LVal(<<"KE">>, Arr(S, 2), "const"), LVal(<<"KQ">>, Q, "const"),
          LVal(<<"KW">>, Tup(<<Tup(<<U32, Bool>>), S>>), "const"), LVal(<<"IA">>, Arr(U32, 2), "const"), LVal(<<"IS">>, P, "const"), LVal(<<"LA">>, Arr(U32, 2), "const"),
          LVal(<<"LS">>, S, "const"), LVal(<<"LW">>, Tup(<<Tup(<<U32, Bool>>), S>>), "const")}
Steps(l) == CASE l.ty.k = "struct" -> {LVal(l.ts \o <<".", Fields(l.ty.s)[i][1]>>, Fields(l.ty.s)[i][2], l.kind) : i \in 1..Len(Fields(l.ty.s))}
              [] l.ty.k = "tup" -> {LVal(l.ts \o <<".", ToString(i - 1)>>, l.ty.e[i], l.kind) : i \in 1..l.ty.n}
              [] l.ty.k \in {"arr", "ptr"} -> {LVal(l.ts \o <<"[", x, "]">>, l.ty.e[1], l.kind) : x \in {"1", "f"}}
              [] OTHER -> {}
Par(l) == LVal(<<"(">> \o l.ts \o <<")">>, l.ty, l.kind)
Deeper(S1) == UNION {Steps(l) : l \in S1}
Paths == LET one == Deeper(Bases) two == Deeper(one \cup {Par(l) : l \in one}) three == Deeper(two) IN one \cup two \cup three
LAll == LVals \cup Paths

Result(ctx, w, pre, ret, err, loose, resty, post) ==
  out' = <<[ctx |-> ctx, wrap |-> w, pre |-> WrapPre(w), toks |-> pre, suf |-> WrapSuf(w), ret |-> ret, err |-> err, loose |-> loose,
            ty |-> resty, post |-> post]>>

\* codes and place (token of the statement) of the owed error; the statement's own
\* error only counts when its expression has none
Owed(e, k, own) == IF e.err # {} THEN Shift(e.err, k) ELSE own

CtxOK(c) == /\ out = <<>> /\ c \in Contexts /\ (Sim => nst >= 1)
Done(c) == CtxOK(c) /\ UNCHANGED <<pool, cur, nst, mode>>

PutLet ==
  /\ Done("let") /\ C.ty.k \notin FnNames
  /\ \E w \in Pick(Wraps) :
       Result("let", w, <<"let", "res", "=">> \o C.ts \o <<";">>, "()", Owed(C, 3, {}), FALSE, C.ty.s, <<>>)
\* a negative literal is no value of an integer type it is declared with
NegLit(e) == Len(e.ts) = 2 /\ e.ts[1] = "-" /\ e.ts[2] \in {"0", "1", "2", "3", "7", "9felt", "7u32"}
PutAnn ==
  /\ Done("ann")
  /\ \E w \in Pick(Wraps), T \in Pick(IF Sim /\ OK(C) /\ RandomElement({1, 2}) = 1 /\ \E t \in AnnTypes : Fits(C.ty, t)
                                      THEN {t \in AnnTypes : Fits(C.ty, t)} ELSE AnnTypes),
        kw \in Pick({"let", "const"}) :
       LET k == 4 + Len(TyToks(T)) IN
       Result("ann", w, <<kw, "res", ":">> \o TyToks(T) \o <<"=">> \o C.ts \o <<";">>, "()",
              Owed(C, k, IF Fits(C.ty, T) /\ ~NegLit(C) THEN {} ELSE Bad(TM, k + 1)), C.hl, T.s, <<>>)
PutAssign ==
  /\ Done("assign")
  /\ \E w \in Pick(Wraps), L \in Pick(IF Sim /\ OK(C) /\ RandomElement({1, 2}) = 1 /\ \E l \in LAll : l.kind = "ok" /\ Fits(C.ty, l.ty)
                                      THEN {l \in LAll : Fits(C.ty, l.ty)} ELSE IF Sim THEN LAll ELSE LVals \cup {l \in Paths : Fits(C.ty, l.ty)}) :
       LET k == Len(L.ts) + 1 IN
       Result("assign", w, L.ts \o <<"=">> \o C.ts \o <<";">>, "()",
              Owed(C, k, IF L.kind = "const" THEN Bad(<<"AssignmentToConst">>, 1)
                         ELSE IF L.kind = "bad" THEN Bad(<<"InvalidAssignmentTarget">>, 1)
                         ELSE IF Fits(C.ty, L.ty) THEN {} ELSE Bad(TM, k + 1)), FALSE, "", <<>>)
PutReturn ==
  /\ Done("return") /\ ~(C.ty.k = "tup" /\ C.ty.n = 0)
  /\ \E w \in Pick(Wraps), T \in Pick(IF Sim /\ OK(C) /\ RandomElement({1, 2}) = 1 /\ \E t \in AnnTypes : Fits(C.ty, t)
                                      THEN {t \in AnnTypes : Fits(C.ty, t)} ELSE AnnTypes \cup {Unit}) :
       Result("return", w, <<"return">> \o C.ts \o <<";">>, FoldLeft(LAMBDA x, y : x \o " " \o y, "", TyToks(T)),
              Owed(C, 1, IF Fits(C.ty, T) THEN {} ELSE Bad(TM, 2)), FALSE, "", <<>>)
PutReturnNothing ==
  /\ Done("return")
  /\ \E w \in Pick(Wraps), T \in Pick(AnnTypes \cup {Unit}) :
       Result("return", w, <<"return", ";">>, FoldLeft(LAMBDA x, y : x \o " " \o y, "", TyToks(T)),
              IF T.n = 0 /\ T.k = "tup" THEN {} ELSE Bad(<<"MissingReturnValue">>, 1), FALSE, "", <<>>)
PutCond ==
  /\ Done("cond")
  /\ \E w \in Pick(Wraps), k \in Pick({"if", "while", "for", "assert", "elif"}) :
       LET pre == CASE k = "if" -> <<"if", "(">> [] k = "while" -> <<"while", "(">>
                    [] k = "elif" -> <<"if", "(", "b", ")", "{", "}", "else", "if", "(">>
                    [] k = "for" -> <<"for", "(", "f", "=", "0", ";">> [] OTHER -> <<"assert", "(">>
           suf == CASE k \in {"if", "while", "elif"} -> <<")", "{", "}">> [] k = "for" -> <<";", "f", "=", "f", "+", "1", ")", "{", "}">>
                    [] OTHER -> <<")", ";">>
       IN Result("cond", w, pre \o C.ts \o suf, "()",
                 Owed(C, Len(pre), IF C.ty.k = "bool" THEN {} ELSE Bad(TM, Len(pre) + 1)), FALSE, "", <<>>)
\* destructuring: the pattern's shape against the value's type
PatMatch(sh, t) ==
  IF t.k # "tup" THEN FALSE
  ELSE CASE sh = "2" -> t.n = 2 [] sh = "3" -> t.n = 3
         [] sh = "(2)1" -> t.n = 2 /\ t.e[1].k = "tup" /\ t.e[1].n = 2
         [] OTHER -> t.n = 2 /\ t.e[2].k = "tup" /\ t.e[2].n = 2
PatToks(sh) == CASE sh = "2" -> <<"(", "x1", ",", "x2", ")">> [] sh = "3" -> <<"(", "x1", ",", "x2", ",", "x3", ")">>
                 [] sh = "(2)1" -> <<"(", "(", "x1", ",", "x2", ")", ",", "x3", ")">>
                 [] OTHER -> <<"(", "x1", ",", "(", "x2", ",", "x3", ")", ")">>
PatTypes(sh, t) == CASE sh = "2" -> <<t.e[1].s, t.e[2].s>> [] sh = "3" -> <<t.e[1].s, t.e[2].s, t.e[3].s>>
                     [] sh = "(2)1" -> <<t.e[1].e[1].s, t.e[1].e[2].s, t.e[2].s>>
                     [] OTHER -> <<t.e[1].s, t.e[2].e[1].s, t.e[2].e[2].s>>
PutPattern ==
  /\ Done("pat") /\ OK(C)
  /\ (Sim => (C.ty.k = "tup" \/ RandomElement(1..4) = 1))
  /\ \E w \in Pick(Wraps), sh \in Pick({"2", "3", "(2)1", "1(2)"}) :
       LET k == Len(PatToks(sh)) + 2  m == PatMatch(sh, C.ty) IN
       Result("pat", w, <<"let">> \o PatToks(sh) \o <<"=">> \o C.ts \o <<";">>, "()",
              IF m THEN {} ELSE Bad(TM, k + 1), FALSE, "", IF m THEN PatTypes(sh, C.ty) ELSE <<>>)

\* constant arrays cannot be handed out by reference
PutConstArray ==
  /\ Done("carr")
  /\ \E w \in Pick(Wraps), k \in Pick(1..5), nm \in Pick({"KD", "IA", "LA", "d"}) :
       LET own(p) == IF nm = "d" THEN {} ELSE Bad(<<"ConstArrayByPointer">>, p) IN
       CASE k = 1 -> Result("carr", w, <<"let", "res", "=", "h4", "(", nm, ",", "f", ")", ";">>, "()", own(6), FALSE, "u32*", <<>>)
         [] k = 2 -> Result("carr", w, <<"let", "res", "=", "h4", "(", "(", nm, ")", ",", "f", ")", ";">>, "()", own(6), FALSE, "u32*", <<>>)
         [] k = 3 -> Result("carr", w, <<"let", "res", "=", "D", "{", "m", ":", nm, "}", ";">>, "()", own(8), FALSE, "D", <<>>)
         [] k = 4 -> Result("carr", w, <<"return", nm, ";">>, "[u32; 2]", own(2), FALSE, "", <<>>)
         [] OTHER -> Result("carr", w, <<"let", "res", "=", nm, "[", "1", "]", ";">>, "()", {}, FALSE, "u32", <<>>)

Init ==
  /\ pool = Leaves \o Lits
  /\ mode \in Modes
  /\ cur \in {(Leaves \o Lits)[i] : i \in 1..Len(Leaves \o Lits)}
  /\ nst = 0 /\ out = <<>>

Next == \/ StepBin \/ StepUn \/ StepCast \/ StepCall \/ StepArity \/ StepCallValue \/ StepMember \/ StepIndex
        \/ StepTupIx \/ StepTup \/ StepArr \/ StepStruct \/ StepNew \/ StepNear
        \/ PutLet \/ PutAnn \/ PutAssign \/ PutReturn \/ PutReturnNothing \/ PutCond \/ PutPattern \/ PutConstArray
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ checks
Case == out[1]
EmitCase == out # <<>> => PrintT("CASE " \o ToJson(Case))
\* progress / preservation at design level: an expression without error has a type
\* built from the environment's types, one with an error has none
Sound == OK(cur) <=> cur.ty.k # "err"
\* the owed error lies inside the text
InText == \A x \in cur.err : x[2] \in 1..Len(cur.ts)
OneError == Cardinality(cur.err) <= 2
GoodIsGood == mode = "good" => OK(cur)
=============================================================================
