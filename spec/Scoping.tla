------------------------------ MODULE Scoping ------------------------------
(***************************************************************************)
(* Lexical scoping of Cairo-M (properties C03, C04).                       *)
(*                                                                         *)
(* A behaviour of this specification writes one program, left to right.    *)
(* Each action appends one syntactic event (open a function / block / if / *)
(* loop / while / for, close it, declare, assign, use ...), and the state  *)
(* carries the meaning the language gives it: the environment of visible   *)
(* declarations, the declaration every identifier occurrence refers to,    *)
(* and which declarations have been referred to.  When the program is      *)
(* closed, the state holds the complete expected answer (use -> definition *)
(* map, undeclared names, unused declarations), which the conformance      *)
(* driver compares with what the real semantic index and the real          *)
(* validators say about the very same text.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Randomization

CONSTANTS
  Names,       \* names that lets, parameters, consts, loop variables may bind
  UseNames,    \* names that may occur in expressions
  ExprKinds,   \* expression templates in use
  MaxEvents,   \* bound on the number of events
  MaxDepth,    \* bound on nesting
  MaxFns,      \* number of functions
  TypeNames,   \* type names that may be written ("T" is never declared)
  TypeForms,   \* how a type name is embedded
  Bares,       \* {FALSE}: all bodies are braced; {TRUE, FALSE}: bodies may be single statements
  Sim          \* TRUE: one random choice per quantifier (simulation mode)

VARIABLES toks, env, stk, decls, uses, tuses, nev, nfn, done
vars == <<toks, env, stk, decls, uses, tuses, nev, nfn, done>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

(* Module-level names that are visible everywhere in the module, whatever  *)
(* the order of items: the functions f1..fMaxFns, the struct S, and the    *)
(* three imported names.  Their declaration sites are recorded when the    *)
(* item is written; a use before that is recorded with its name (d < 0)    *)
(* and bound when the program is complete.                                 *)
FnName(i) == CASE i = 1 -> "f1" [] i = 2 -> "f2" [] i = 3 -> "f3" [] OTHER -> "f4"
GlobalNames == {FnName(i) : i \in 1..MaxFns} \cup {"S", "g", "K", "P"}

\* declaration kinds that a module reports when nothing refers to them
Reportable == {"let", "const", "param", "use"}

LocalLookup(n) ==
  LET H == {i \in 1..Len(env) : decls[env[i]].n = n}
  IN IF H = {} THEN 0 ELSE env[CHOOSE i \in H : \A j \in H : j <= i]

GlobalDecl(n) ==
  LET H == {i \in 1..Len(decls) : decls[i].n = n /\ decls[i].k \in {"fn", "struct", "use"}}
  IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE

\* what an occurrence of n refers to: a declaration index, -1 for a module
\* item not written yet, 0 for nothing
Resolve(n) ==
  LET l == LocalLookup(n) IN
    IF l # 0 THEN l ELSE IF n \in GlobalNames THEN -1 ELSE 0

UseRec(n, t) == [t |-> t, n |-> n, d |-> Resolve(n)]

(* Expression templates: a token sequence in which "?1" and "?2" are the   *)
(* identifier occurrences.                                                 *)
Template(k) ==
  CASE k = "num"   -> <<"7">>
    [] k = "id"    -> <<"?1">>
    [] k = "add"   -> <<"?1", "+", "?2">>
    [] k = "neg"   -> <<"-", "?1">>
    [] k = "par"   -> <<"(", "?1", ")">>
    [] k = "call"  -> <<"?1", "(", "?2", ")">>
    [] k = "mem"   -> <<"?1", ".", "x">>
    [] k = "idx"   -> <<"?1", "[", "?2", "]">>
    [] k = "tup"   -> <<"(", "?1", ",", "?2", ")">>
    [] k = "tix"   -> <<"?1", ".", "0">>
    [] k = "arr"   -> <<"[", "?1", ",", "?2", "]">>
    [] k = "rep"   -> <<"[", "?1", ";", "2", "]">>
    [] k = "lit"   -> <<"S", "{", "x", ":", "?1", "}">>
    [] k = "plit"  -> <<"P", "{", "x", ":", "?1", "}">>
    [] k = "cast"  -> <<"?1", "as", "felt">>
    [] k = "castT" -> <<"?1", "as", "T">>
    [] k = "castP" -> <<"?1", "as", "P">>
    [] k = "newP"  -> <<"new", "P", "[", "?1", "]">>
    [] k = "newT"  -> <<"new", "T", "[", "?1", "]">>
    [] k = "nest"  -> <<"(", "1", "+", "?1", "*", "(", "?2", "-", "2", ")", ")">>
    [] k = "anew"  -> <<"new", "felt", "[", "?1", "]">>
    [] k = "and"   -> <<"!", "?1", "&&", "?2">>
    [] k = "deep"  -> <<"f1", "(", "[", "?1", "+", "1", ",", "-", "?2", "]", ")">>
    [] OTHER       -> <<"7">>

Fill(k, a, b) == [i \in 1..Len(Template(k)) |->
                    IF Template(k)[i] = "?1" THEN a ELSE IF Template(k)[i] = "?2" THEN b ELSE Template(k)[i]]
\* identifier occurrences of a filled template starting at token position p
Occ(k, a, b, p) ==
  LET T == Template(k)
      I == SelectSeq([i \in 1..Len(T) |-> i],
             LAMBDA i : T[i] \in {"?1", "?2"} \/ (i = 1 /\ k = "deep"))
  IN [j \in 1..Len(I) |->
        UseRec(IF T[I[j]] = "?1" THEN a ELSE IF T[I[j]] = "?2" THEN b ELSE T[I[j]], p + I[j] - 1)]
\* type-name occurrences of a template (struct literals)
TOcc(k, p) == IF k = "lit" THEN <<[t |-> p, n |-> "S"]>>
              ELSE IF k = "plit" THEN <<[t |-> p, n |-> "P"]>>
              ELSE IF k = "castT" THEN <<[t |-> p + 2, n |-> "T"]>>
              ELSE IF k = "castP" THEN <<[t |-> p + 2, n |-> "P"]>>
              ELSE IF k = "newT" THEN <<[t |-> p + 1, n |-> "T"]>>
              ELSE IF k = "newP" THEN <<[t |-> p + 1, n |-> "P"]>> ELSE <<>>

Next0 == Len(toks) + 1        \* position of the next token
InFn == Len(stk) > 0
Room == nev < MaxEvents
Decl(n, k, t) == [n |-> n, k |-> k, t |-> t]

\* the names are occurrences of U; T the type occurrences; D the new declarations,
\* visible from now on
Emit(ts, U, T, D) ==
  /\ toks' = toks \o ts
  /\ uses' = uses \o U
  /\ tuses' = tuses \o T
  /\ decls' = decls \o D
  /\ env' = env \o [i \in 1..Len(D) |-> Len(decls) + i]
  /\ nev' = nev + 1

\* the body of if/loop/while/for may be a single statement without braces: such a
\* frame (bare) is left as soon as one statement has been completed in it
Open(k, bare) == stk' = Append(stk, [k |-> k, base |-> Len(env), bare |-> bare])
Brace(bare) == IF bare THEN <<>> ELSE <<"{">>

\* frames that remain once a statement is complete on top of stack s
RECURSIVE Keep(_)
Keep(s) == IF Len(s) > 0 /\ s[Len(s)].bare THEN Keep(SubSeq(s, 1, Len(s) - 1)) ELSE Len(s)
\* the base of the outermost frame left, or the length l of the environment
Leave(s, l) == IF Keep(s) < Len(s) THEN s[Keep(s) + 1].base ELSE l

\* a complete statement: like Emit, then leave the bare frames
EmitStmt(ts, U, T, D) ==
  /\ toks' = toks \o ts
  /\ uses' = uses \o U
  /\ tuses' = tuses \o T
  /\ decls' = decls \o D
  /\ env' = LET e == env \o [i \in 1..Len(D) |-> Len(decls) + i] IN SubSeq(e, 1, Leave(stk, Len(e)))
  /\ stk' = SubSeq(stk, 1, Keep(stk))
  /\ nev' = nev + 1

Init ==
  /\ toks = <<"use", "lib", "::", "{", "g", ",", "K", ",", "P", "}", ";",
              "struct", "S", "{", "x", ":", "felt", "}">>
  /\ decls = <<Decl("g", "use", 5), Decl("K", "use", 7), Decl("P", "use", 9), Decl("S", "struct", 13)>>
  /\ env = <<>> /\ stk = <<>> /\ uses = <<>> /\ tuses = <<>> /\ nev = 0 /\ nfn = 0 /\ done = FALSE

\* ---------------------------------------------------------------- items
\* a type is a pair <<name, form>>
TyToks(ty) == CASE ty[2] = "plain" -> <<ty[1]>>
                [] ty[2] = "arr"   -> <<"[", ty[1], ";", "2", "]">>
                [] ty[2] = "tup"   -> <<"(", "felt", ",", ty[1], ")">>
                [] ty[2] = "ptr"   -> <<ty[1], "*">>
                [] OTHER           -> <<"(", ty[1], "*", ",", "(", "bool", ",", "u32", ")", ")">>
TyOff(ty) == CASE ty[2] = "plain" -> 0 [] ty[2] = "arr" -> 1 [] ty[2] = "tup" -> 3 [] ty[2] = "ptr" -> 0 [] OTHER -> 1
TyOcc(ty, p) == IF ty[1] \in {"felt", ""} THEN <<>> ELSE <<[t |-> p + TyOff(ty), n |-> ty[1]]>>
Types == {<<n, f>> : n \in TypeNames, f \in TypeForms}
NoType == <<"", "none">>
Ann(ty) == IF ty = NoType THEN <<>> ELSE <<":">> \o TyToks(ty)
AnnOcc(ty, p) == IF ty = NoType THEN <<>> ELSE TyOcc(ty, p + 1)

OpenFn ==
  /\ ~InFn /\ nfn < MaxFns /\ Room /\ ~done
  /\ \E p \in Pick(Names), q \in Pick(Names \cup {"q"}), two \in Pick({TRUE, FALSE}), ty \in Pick(Types), rt \in Pick(Types) :
       /\ two => p # q
       /\ LET P0 == Next0
              a == <<"fn", FnName(nfn + 1), "(", p, ":">> \o TyToks(ty)
              b == a \o (IF two THEN <<",", q, ":", "felt">> ELSE <<>>) \o <<")", "->">>
              F == Decl(FnName(nfn + 1), "fn", P0 + 1)
              Ps == IF two THEN <<Decl(p, "param", P0 + 3), Decl(q, "param", P0 + Len(a) + 1)>>
                    ELSE <<Decl(p, "param", P0 + 3)>>
          IN /\ toks' = toks \o b \o TyToks(rt) \o <<"{">>
             /\ decls' = decls \o <<F>> \o Ps
             /\ env' = env \o [i \in 1..Len(Ps) |-> Len(decls) + 1 + i]
             /\ tuses' = tuses \o TyOcc(ty, P0 + 5) \o TyOcc(rt, P0 + Len(b))
             /\ uses' = uses /\ nev' = nev + 1
       /\ Open("fn", FALSE)
  /\ nfn' = nfn + 1
  /\ UNCHANGED done

ConstText(n, ty, k, a, b) == <<"const", n>> \o Ann(ty) \o <<"=">> \o Fill(k, a, b) \o <<";">>
ConstUses(n, ty, k, a, b) == Occ(k, a, b, Next0 + 3 + Len(Ann(ty)))
ConstTypes(n, ty, k, a, b) == AnnOcc(ty, Next0 + 2) \o TOcc(k, Next0 + 3 + Len(Ann(ty)))

TopConst ==
  /\ ~InFn /\ Room /\ ~done
  /\ \E n \in Pick(Names), k \in Pick(ExprKinds), a \in Pick(UseNames), b \in Pick(UseNames), ty \in Pick(Types \cup {NoType}) :
       Emit(ConstText(n, ty, k, a, b), ConstUses(n, ty, k, a, b), ConstTypes(n, ty, k, a, b), <<Decl(n, "const", Next0 + 1)>>)
  /\ UNCHANGED <<stk, nfn, done>>

\* a struct item only mentions types; its field names bind nothing
StructItem ==
  /\ ~InFn /\ Room /\ ~done /\ ~\E i \in 1..Len(decls) : decls[i].n = "S2"
  /\ \E ty \in Pick(Types), tz \in Pick(Types), f \in Pick(Names) :
       LET a == <<"struct", "S2", "{", f, ":">> \o TyToks(ty) \o <<",", "w", ":">>
       IN /\ toks' = toks \o a \o TyToks(tz) \o <<"}">>
          /\ tuses' = tuses \o TyOcc(ty, Next0 + 5) \o TyOcc(tz, Next0 + Len(a))
          /\ decls' = Append(decls, Decl("S2", "struct", Next0 + 1))
          /\ nev' = nev + 1
  /\ UNCHANGED <<env, uses, stk, nfn, done>>

\* ----------------------------------------------------------- statements
Let ==
  /\ InFn /\ Room
  /\ \E n \in Pick(Names), k \in Pick(ExprKinds), a \in Pick(UseNames), b \in Pick(UseNames),
        ty \in Pick(Types \cup {NoType}) :
       LET an == Ann(ty)
           e0 == Next0 + 3 + Len(an)
       IN EmitStmt(<<"let", n>> \o an \o <<"=">> \o Fill(k, a, b) \o <<";">>,
               Occ(k, a, b, e0), AnnOcc(ty, Next0 + 2) \o TOcc(k, e0),
               <<Decl(n, "let", Next0 + 1)>>)
  /\ UNCHANGED <<nfn, done>>

LetTuple ==
  /\ InFn /\ Room
  /\ \E n \in Pick(Names), m \in Pick(Names), a \in Pick(UseNames), b \in Pick(UseNames), nested \in Pick({TRUE, FALSE}) :
       /\ n # m
       /\ IF nested
          THEN EmitStmt(<<"let", "(", n, ",", "(", m, ",", "_w", ")", ")", "=", a, ";">>,
                    <<UseRec(a, Next0 + 11)>>, <<>>,
                    <<Decl(n, "let", Next0 + 2), Decl(m, "let", Next0 + 5), Decl("_w", "let", Next0 + 7)>>)
          ELSE EmitStmt(<<"let", "(", n, ",", m, ")", "=", "(", a, ",", b, ")", ";">>,
                    <<UseRec(a, Next0 + 8), UseRec(b, Next0 + 10)>>, <<>>,
                    <<Decl(n, "let", Next0 + 2), Decl(m, "let", Next0 + 4)>>)
  /\ UNCHANGED <<nfn, done>>

LocalConst ==
  /\ InFn /\ Room
  /\ \E n \in Pick(Names), k \in Pick(ExprKinds), a \in Pick(UseNames), b \in Pick(UseNames), ty \in Pick(Types \cup {NoType}) :
       EmitStmt(ConstText(n, ty, k, a, b), ConstUses(n, ty, k, a, b), ConstTypes(n, ty, k, a, b), <<Decl(n, "const", Next0 + 1)>>)
  /\ UNCHANGED <<nfn, done>>

Assign ==
  /\ InFn /\ Room
  /\ \E n \in Pick(UseNames), k \in Pick(ExprKinds), a \in Pick(UseNames), b \in Pick(UseNames) :
       EmitStmt(<<n, "=">> \o Fill(k, a, b) \o <<";">>,
            <<UseRec(n, Next0)>> \o Occ(k, a, b, Next0 + 2), TOcc(k, Next0 + 2), <<>>)
  /\ UNCHANGED <<nfn, done>>

ExprStmt ==
  /\ InFn /\ Room
  /\ \E k \in Pick(ExprKinds), a \in Pick(UseNames), b \in Pick(UseNames), r \in Pick({TRUE, FALSE}) :
       LET pre == IF r THEN <<"return">> ELSE <<>> IN
       EmitStmt(pre \o Fill(k, a, b) \o <<";">>,
            Occ(k, a, b, Next0 + Len(pre)), TOcc(k, Next0 + Len(pre)), <<>>)
  /\ UNCHANGED <<nfn, done>>

\* ------------------------------------------------- structured statements
OpenPlain ==
  /\ InFn /\ Room /\ Len(stk) < MaxDepth
  /\ \E k \in Pick({"blk", "loop"}), b \in Pick(Bares) :
       /\ k = "blk" => ~b
       /\ Emit(IF k = "blk" THEN <<"{">> ELSE <<"loop">> \o Brace(b), <<>>, <<>>, <<>>)
       /\ Open(k, b)
  /\ UNCHANGED <<nfn, done>>

OpenCond ==
  /\ InFn /\ Room /\ Len(stk) < MaxDepth
  /\ \E k \in Pick({"if", "while"}), x \in Pick(ExprKinds \ {"lit", "plit"}), a \in Pick(UseNames), b \in Pick(UseNames), br \in Pick(Bares) :
       /\ Emit(<<k, "(">> \o Fill(x, a, b) \o <<")">> \o Brace(br), Occ(x, a, b, Next0 + 2), TOcc(x, Next0 + 2), <<>>)
       /\ Open(k, br)
  /\ UNCHANGED <<nfn, done>>

\* if (a) let n = b; else let m = c;   both branches are scopes of their own
BareIfElse ==
  /\ InFn /\ Room /\ TRUE \in Bares
  /\ \E n \in Pick(Names), m \in Pick(Names), a \in Pick(UseNames), b \in Pick(UseNames), c \in Pick(UseNames) :
       LET P0 == Next0 IN
       /\ toks' = toks \o <<"if", "(", a, ")", "let", n, "=", b, ";", "else", "let", m, "=", c, ";">>
       /\ uses' = uses \o <<UseRec(a, P0 + 2), UseRec(b, P0 + 7), UseRec(c, P0 + 13)>>
       /\ decls' = decls \o <<Decl(n, "let", P0 + 5), Decl(m, "let", P0 + 11)>>
       /\ env' = SubSeq(env, 1, Leave(stk, Len(env)))
       /\ stk' = SubSeq(stk, 1, Keep(stk))
       /\ nev' = nev + 1
  /\ UNCHANGED <<tuses, nfn, done>>

\* for (let n = a; b != 3; n2 = c + 1) { ... }: init, condition, step and body
\* share one scope; the initialiser does not see n.  for (n2 = a; ...) declares nothing.
OpenFor ==
  /\ InFn /\ Room /\ Len(stk) < MaxDepth
  /\ \E n \in Pick(Names), a \in Pick(UseNames), b \in Pick(UseNames), n2 \in Pick(UseNames), c \in Pick(UseNames), br \in Pick(Bares) :
       LET P0 == Next0
           d == Len(decls) + 1
           R(x, t) == [t |-> t, n |-> x, d |-> IF x = n THEN d ELSE Resolve(x)]
       IN /\ toks' = toks \o <<"for", "(", "let", n, "=", a, ";", b, "!=", "3", ";", n2, "=", c, "+", "1", ")">> \o Brace(br)
          /\ uses' = uses \o <<UseRec(a, P0 + 5), R(b, P0 + 7), R(n2, P0 + 11), R(c, P0 + 13)>>
          /\ decls' = Append(decls, Decl(n, "let", P0 + 3))
          /\ Open("for", br)
          /\ env' = Append(env, d)
          /\ nev' = nev + 1
  /\ UNCHANGED <<tuses, nfn, done>>

OpenForAssign ==
  /\ InFn /\ Room /\ Len(stk) < MaxDepth /\ TRUE \in Bares
  /\ \E m \in Pick(UseNames), a \in Pick(UseNames), b \in Pick(UseNames), c \in Pick(UseNames), br \in Pick(Bares) :
       /\ Emit(<<"for", "(", m, "=", a, ";", b, "!=", "3", ";", c, "(", "1", ")", ")">> \o Brace(br),
               <<UseRec(m, Next0 + 2), UseRec(a, Next0 + 4), UseRec(b, Next0 + 6), UseRec(c, Next0 + 10)>>, <<>>, <<>>)
       /\ Open("for", br)
  /\ UNCHANGED <<nfn, done>>

Top == stk[Len(stk)]
Else ==
  /\ InFn /\ Room /\ Len(stk) > 1
  /\ Top.k \in {"if", "elif"} /\ ~Top.bare
  /\ env' = SubSeq(env, 1, Top.base)
  /\ \E c \in Pick({"else", "elif"}), a \in Pick(UseNames), br \in Pick(Bares) :
       LET l == {i \in 1..Top.base : decls[env[i]].n = a}
           d == IF l # {} THEN env[CHOOSE i \in l : \A j \in l : j <= i]
                ELSE IF a \in GlobalNames THEN -1 ELSE 0
       IN /\ toks' = toks \o (IF c = "else" THEN <<"}", "else">>
                              ELSE <<"}", "else", "if", "(", a, ")">>) \o Brace(br)
          /\ uses' = uses \o (IF c = "else" THEN <<>> ELSE <<[t |-> Next0 + 4, n |-> a, d |-> d]>>)
          /\ stk' = [stk EXCEPT ![Len(stk)].k = c, ![Len(stk)].bare = br]
  /\ nev' = nev + 1
  /\ UNCHANGED <<tuses, decls, nfn, done>>

Close ==
  /\ InFn /\ ~Top.bare
  /\ toks' = Append(toks, "}")
  /\ LET s == SubSeq(stk, 1, Len(stk) - 1) IN
       /\ env' = SubSeq(env, 1, Leave(s, Top.base))
       /\ stk' = SubSeq(s, 1, Keep(s))
  /\ UNCHANGED <<decls, uses, tuses, nev, nfn, done>>

\* a bare frame left open when the events run out gets an empty statement
Fill0 ==
  /\ InFn /\ ~Room /\ Top.bare
  /\ toks' = toks \o <<"{", "}">>
  /\ env' = SubSeq(env, 1, Leave(stk, Len(env)))
  /\ stk' = SubSeq(stk, 1, Keep(stk))
  /\ UNCHANGED <<decls, uses, tuses, nev, nfn, done>>

Finish ==
  /\ ~InFn /\ ~done /\ nfn > 0
  /\ done' = TRUE
  /\ UNCHANGED <<toks, env, stk, decls, uses, tuses, nev, nfn>>

Next == OpenFn \/ TopConst \/ StructItem \/ Let \/ LetTuple \/ LocalConst \/ Assign \/ ExprStmt
        \/ OpenPlain \/ OpenCond \/ BareIfElse \/ OpenFor \/ OpenForAssign \/ Else \/ Close \/ Fill0 \/ Finish
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------- expected answer
Final(u) == IF u.d = -1 THEN GlobalDecl(u.n) ELSE u.d
FinalUses == [i \in 1..Len(uses) |-> [t |-> uses[i].t, n |-> uses[i].n, d |-> Final(uses[i])]]
TFinal(u) == GlobalDecl(u.n)
UsedDecls == {Final(uses[i]) : i \in 1..Len(uses)} \cup {TFinal(tuses[i]) : i \in 1..Len(tuses)}
Unused == {i \in 1..Len(decls) : decls[i].k \in Reportable /\ i \notin UsedDecls
                                 /\ decls[i].n \notin {"_u", "_w"}}
Undeclared == {i \in 1..Len(uses) : Final(uses[i]) = 0}

Case ==
  [toks |-> toks,
   uses |-> [i \in 1..Len(uses) |-> <<uses[i].t, IF Final(uses[i]) = 0 THEN 0 ELSE decls[Final(uses[i])].t>>],
   unused |-> {decls[i].t : i \in Unused},
   undecl |-> {<<uses[i].n, uses[i].t>> : i \in Undeclared},
   undeclty |-> {tuses[i].t : i \in {j \in 1..Len(tuses) : TFinal(tuses[j]) = 0}}]

EmitCase == done => PrintT("CASE " \o ToJson(Case))

\* --------------------------------------------------- design-level checks
\* the environment is a stack of declarations that respects nesting
EnvOK == /\ \A i \in 1..Len(env) : env[i] \in 1..Len(decls)
         /\ \A i, j \in 1..Len(env) : i < j => env[i] < env[j]
         /\ \A i \in 1..Len(stk) : stk[i].base <= Len(env)
         /\ \A i, j \in 1..Len(stk) : i < j => stk[i].base <= stk[j].base
\* a use never refers to a declaration written after it (module items excepted)
NoForward == \A i \in 1..Len(uses) :
   uses[i].d > 0 => /\ decls[uses[i].d].n = uses[i].n
                    /\ \/ decls[uses[i].d].t < uses[i].t
                       \/ decls[uses[i].d].k \in {"fn", "struct", "use"}
\* resolution is innermost-latest among what is in scope: no visible declaration
\* of the same name is newer than the one chosen (checked at the moment of use)
Shadowing == \A n \in UseNames : LET l == LocalLookup(n) IN
   l # 0 => \A i \in 1..Len(env) : decls[env[i]].n = n => env[i] <= l
\* every use of an unbound name ends up reported, and nothing else does
Accounted == done => \A i \in 1..Len(uses) : (Final(uses[i]) = 0) = (i \in Undeclared)
=============================================================================
