------------------------------ MODULE TypeNames ------------------------------
(***************************************************************************)
(* Names in type positions (property C28).                                 *)
(*                                                                         *)
(* A behaviour writes one module item by item: structs with fields,        *)
(* functions with parameters, a return type and a body of declarations,    *)
(* constants and imports.  Any type may name anything: a struct declared   *)
(* before or behind, the struct being declared, a function, a constant, a  *)
(* parameter, the local being declared, an import, nothing at all.         *)
(* A name denotes a type iff it is a struct of the module or an import of  *)
(* one; a struct is recursive through those of its fields whose types lead *)
(* back to it, through tuples, arrays and pointers.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,       \* names of items; the imported module has an item of each
          LibStructs,  \* those of them that are structs there
          Locals,      \* names of parameters, locals and of nothing
          MaxList, MaxEvents, Sim
VARIABLES toks,   \* the text so far
          kind,   \* item name -> "struct", "fn", "const", "import" or "none"
          fields, \* <<owner, position of the type, names in it>>
          uses,   \* <<name, position>> of every name in a type position
          infn, nev, done
vars == <<toks, kind, fields, uses, infn, nev, done>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
AllNames == Names \cup Locals
Base == AllNames \cup {"felt", "u32", "bool"}
Types0 == {<<n>> : n \in IF Sim THEN Base ELSE AllNames \cup {"felt"}}
Wrap(t, w) == CASE w = "ptr" -> t \o <<"*">>
                [] w = "arr" -> <<"[">> \o t \o <<";", "2", "]">>
                [] w = "tup" -> <<"(">> \o t \o <<",", "felt", ")">>
                [] w = "tup2" -> <<"(", "u32", ",">> \o t \o <<")">>
                [] OTHER -> t
Wraps == {"ptr", "arr", "tup", "tup2", "no"}
PickType(v) == IF Sim THEN {LET t == RandomElement(IF v = <<>> THEN Types0 ELSE Types0)
                             a == RandomElement(Wraps)
                             b == IF a = "no" THEN "no" ELSE RandomElement(Wraps)
                         IN Wrap(IF a = "arr" THEN t ELSE Wrap(t, b), a)}
            ELSE {Wrap(t, w) : t \in Types0, w \in {"no", "ptr", "tup"}}
PickTypes(v) == IF Sim THEN LET k == RandomElement(IF v = <<>> THEN 0..MaxList ELSE 0..MaxList) IN {[j \in 1..k |-> CHOOSE t \in PickType(<<v, j>>) : TRUE]}
             ELSE UNION {[1..k -> PickType(v)] : k \in 0..MaxList}
Next0 == Len(toks) + 1
Room == nev < MaxEvents /\ ~done
\* the names in t, and where they stand when t begins at position p
At(t, p) == {<<t[i], p + i - 1>> : i \in {j \in 1..Len(t) : t[j] \in AllNames}}
NamesIn(t) == {t[i] : i \in {j \in 1..Len(t) : t[j] \in AllNames}}

\* "n1 : T1 , n2 : T2" beginning at position p, with the positions of the types
RECURSIVE Listing(_, _, _, _)
Listing(ns, ts, j, p) ==
  IF j > Len(ts) THEN [toks |-> <<>>, at |-> <<>>]
  ELSE LET head == (IF j > 1 THEN <<",">> ELSE <<>>) \o <<ns[j], ":">>
           rest == Listing(ns, ts, j + 1, p + Len(head) + Len(ts[j]))
       IN [toks |-> head \o ts[j] \o rest.toks, at |-> <<p + Len(head)>> \o rest.at]
Range(f) == {f[i] : i \in DOMAIN f}
FieldNames == <<"f1", "f2", "f3", "f4">>
ParamNames(v) == IF Sim THEN {LET s == RandomElement(IF v = <<>> THEN Locals ELSE Locals) IN <<s, "p2", "p3", "p4">>} ELSE {<<"p", "p2", "p3", "p4">>}
Fresh == {n \in Names : kind[n] = "none"}

Struct == /\ Room /\ ~infn /\ Fresh # {}
          /\ \E n \in Pick(Fresh) : \E ts \in PickTypes(toks) :
               LET l == Listing(FieldNames, ts, 1, Next0 + 3) IN
               /\ toks' = toks \o <<"struct", n, "{">> \o l.toks \o <<"}">>
               /\ kind' = [kind EXCEPT ![n] = "struct"]
               /\ fields' = fields \cup {<<n, l.at[j], NamesIn(ts[j])>> : j \in 1..Len(ts)}
               /\ uses' = uses \cup UNION {At(ts[j], l.at[j]) : j \in 1..Len(ts)}
          /\ nev' = nev + 1 /\ UNCHANGED <<infn, done>>
Fn == /\ Room /\ ~infn /\ Fresh # {}
      /\ \E n \in Pick(Fresh), pn \in ParamNames(toks) : \E ts \in PickTypes(toks), r \in PickType(kind) :
           LET l == Listing(pn, ts, 1, Next0 + 3)
               h == <<"fn", n, "(">> \o l.toks \o <<")", "->">> IN
           /\ toks' = toks \o h \o r \o <<"{">>
           /\ kind' = [kind EXCEPT ![n] = "fn"]
           /\ uses' = uses \cup UNION {At(ts[j], l.at[j]) : j \in 1..Len(ts)} \cup At(r, Next0 + Len(h))
      /\ infn' = TRUE /\ nev' = nev + 1 /\ UNCHANGED <<fields, done>>
Const == /\ Room /\ ~infn /\ Fresh # {}
         /\ \E n \in Pick(Fresh), t \in PickType(toks) :
              /\ toks' = toks \o <<"const", n, ":">> \o t \o <<"=", "1", ";">>
              /\ kind' = [kind EXCEPT ![n] = "const"]
              /\ uses' = uses \cup At(t, Next0 + 3)
         /\ nev' = nev + 1 /\ UNCHANGED <<fields, infn, done>>
Use == /\ Room /\ ~infn /\ Fresh # {}
       /\ \E n \in Pick(Fresh) :
            /\ toks' = toks \o <<"use", "lib", "::", n, ";">>
            /\ kind' = [kind EXCEPT ![n] = "import"]
       /\ nev' = nev + 1 /\ UNCHANGED <<fields, uses, infn, done>>
\* declarations of a body
Body(head, t, tail) == /\ toks' = toks \o head \o t \o tail
                       /\ uses' = uses \cup At(t, Next0 + Len(head))
                       /\ nev' = nev + 1 /\ UNCHANGED <<kind, fields, infn, done>>
Let == /\ Room /\ infn
       /\ \E n \in Pick(Locals), t \in PickType(toks), c \in Pick({"let", "const"}) : Body(<<c, n, ":">>, t, <<"=", "1", ";">>)
\* the element of an allocation is one name, maybe behind a pointer
New == /\ Room /\ infn
       /\ \E n \in Pick(Locals), t \in Pick(Types0) : Body(<<"let", n, "=", "new">>, t, <<"[", "2", "]", ";">>)
Close == /\ infn /\ toks' = toks \o <<"}">> /\ infn' = FALSE /\ UNCHANGED <<kind, fields, uses, nev, done>>
Finish == /\ ~infn /\ ~done /\ uses # {} /\ done' = TRUE /\ UNCHANGED <<toks, kind, fields, uses, infn, nev>>
Init == toks = <<>> /\ kind = [n \in Names |-> "none"] /\ fields = {} /\ uses = {} /\ infn = FALSE /\ nev = 0 /\ done = FALSE
Next == Struct \/ Fn \/ Const \/ Use \/ Let \/ New \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

Denotes(n) == n \in Names /\ (kind[n] = "struct" \/ (kind[n] = "import" /\ n \in LibStructs))
Undeclared == {u[2] : u \in {v \in uses : ~Denotes(v[1])}}
Structs == {n \in Names : kind[n] = "struct"}
Direct(S) == UNION {f[3] : f \in {g \in fields : g[1] \in S}} \cap Structs
RECURSIVE Closure(_)
Closure(S) == LET N == S \cup Direct(S) IN IF N = S THEN S ELSE Closure(N)
Recursive == {f[2] : f \in {g \in fields : g[1] \in Closure(g[3] \cap Structs)}}
Case == [toks |-> toks, undecl |-> Undeclared, rec |-> Recursive]
EmitCase == done => PrintT("CASE " \o ToJson(Case))
\* without its recursive fields no struct contains itself
Broken == LET keep == {f \in fields : f[2] \notin Recursive}
              step(S) == UNION {f[3] : f \in {g \in keep : g[1] \in S}} \cap Structs
              RECURSIVE cl(_)
              cl(S) == LET N == S \cup step(S) IN IF N = S THEN S ELSE cl(N)
          IN \A n \in Structs : n \notin cl(step({n}))
\* a struct without fields that lead to structs is not recursive
Leaves == \A f \in fields : (f[3] \cap Structs = {}) => f[2] \notin Recursive
=============================================================================
