------------------------------ MODULE Modules ------------------------------
(***************************************************************************)
(* Modules, imports and the incremental analysis of a project (properties  *)
(* C01, C02, C06, C19).                                                    *)
(*                                                                         *)
(* The state is the project (which modules exist and what each declares,   *)
(* imports and uses), the revision counter of the database, and the state  *)
(* of delta trackers.  Transitions add, edit, remove and re-add modules,   *)
(* change the entry module and query.  Owed(cont) is what analysis owes    *)
(* for a project, defined from the sources alone: no history in it.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mods, Names, Kinds, Forms, MaxOps, MaxUses, Trackers, Sim, Queries, BadOdds
VARIABLES cont, dag, rev, trk, ops, seen, out
vars == <<cont, dag, rev, trk, ops, seen, out>>

Absent == [x |-> "absent"]
None == "none"
Ghost == "zz"                      \* a module that never exists
Present(c) == {m \in Mods : c[m] # Absent}

(* The order used to keep a project acyclic when `dag` is set *)
Rank(m) == CASE m = "main" -> 1 [] m = "a" -> 2 [] m = "b" -> 3 [] OTHER -> 4

(* ---------------------------------------------------------------- contents
   decl : name -> kind or None;  imp : name -> module, Ghost or None (only for
   undeclared names);  uses : sequence of [n, f];  list : imports of one module
   share a braced list;  bad : the text does not parse                        *)
Declares(x, n) == x.decl[n] # None
Imports(x, n) == x.decl[n] = None /\ x.imp[n] # None

(* ------------------------------------------------------------- import graph *)
Edges(c) == {<<m, k>> \in Present(c) \X (Mods \cup {Ghost}) : \E n \in Names : Imports(c[m], n) /\ c[m].imp[n] = k}
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF T = S THEN S ELSE Reach(E, T)
Succ(E, m) == {e[2] : e \in {x \in E : x[1] = m}}
Cyclic(c) == LET E == Edges(c) IN \E m \in Present(c) : m \in Reach(E, Succ(E, m))

(* --------------------------------------------------------------- resolution *)
RECURSIVE Resolve(_, _, _)
Resolve(c, m, n) ==
  IF Declares(c[m], n) THEN [k |-> c[m].decl[n], m |-> m]
  ELSE IF ~Imports(c[m], n) THEN [k |-> "undeclared", m |-> m]
  ELSE LET s == c[m].imp[n] IN
       IF s \notin Present(c) THEN [k |-> "error", m |-> m]
       ELSE LET r == Resolve(c, s, n) IN IF r.k = "undeclared" THEN [k |-> "error", m |-> m] ELSE r

Fits(kind, form) ==
  \/ (kind = "fnF" /\ form = "callF")
  \/ (kind = "fnU" /\ form = "callU")
  \/ (kind = "fnP" /\ form = "callP")
  \/ (kind = "fnPU" /\ form = "callPU")
  \/ (kind = "stF" /\ form \in {"litF", "parmF"})
  \/ (kind = "stU" /\ form \in {"litU", "parmU"})
  \/ (kind = "coF" /\ form = "valF")
  \/ (kind \in {"coU", "coI"} /\ form = "valU")

(* -------------------------------------------------------- what is owed: a set
   of <<module, what, where>>                                                 *)
\* referred to by a use of its own module or by another module's import
Used(c, m, n) == \/ \E i \in 1..Len(c[m].uses) : c[m].uses[i].n = n
                 \/ \E k \in Present(c) : Imports(c[k], n) /\ c[k].imp[n] = m
OwedIn(c, m) ==
  LET x == c[m] IN
  {<<m, "mod", n>> : n \in {n \in Names : Imports(x, n) /\ x.imp[n] \notin Present(c)}}
  \cup {<<m, "item", n>> : n \in {n \in Names : Imports(x, n) /\ x.imp[n] \in Present(c)
                                     /\ ~Declares(c[x.imp[n]], n) /\ ~Imports(c[x.imp[n]], n)}}
  \cup {<<m, "unused", n>> : n \in {n \in Names : (Imports(x, n) \/ x.decl[n] \in {"coF", "coU", "coI"}) /\ ~Used(c, m, n)}}
  \cup {<<m, "site", ToString(i)>> : i \in {i \in 1..Len(x.uses) : LET r == Resolve(c, m, x.uses[i].n) IN
                                       r.k \notin {"undeclared", "error"} /\ ~Fits(r.k, x.uses[i].f)}}
  \cup {<<m, "undeclared", ToString(i)>> : i \in {i \in 1..Len(x.uses) : Resolve(c, m, x.uses[i].n).k = "undeclared"}}
  \cup {<<m, "open", ToString(i)>> : i \in {i \in 1..Len(x.uses) : Resolve(c, m, x.uses[i].n).k = "error"}}
Broken(c) == {m \in Present(c) : c[m].bad}
Owed(c) == IF Broken(c) # {} THEN [st |-> "broken", d |-> {<<m, "parse", "">> : m \in Broken(c)}]
           ELSE IF Cyclic(c) THEN [st |-> "cyclic", d |-> Edges(c)]
           ELSE [st |-> "ok", d |-> UNION {OwedIn(c, m) : m \in Present(c)}]

(* ------------------------------------------------------------ delta trackers
   A tracker remembers the revision of its last answer and, per module, the
   revision at which that module's diagnostics were computed.                 *)
NoTrk == [last |-> 0, cache |-> <<>>]
TrkAnswer(t, c, r) ==
  LET fresh == [m \in Present(c) |-> r] IN
  IF t.last = r THEN [t |-> t, ans |-> t.cache] ELSE [t |-> [last |-> r, cache |-> fresh], ans |-> fresh]
\* every cached entry describes the project as it is now, and no other module is kept
TrackerFresh == \A k \in Trackers : trk[k].last = rev => trk[k].cache = [m \in Present(cont) |-> rev]

(* ------------------------------------------------------------------ contents *)
Pick(S) == RandomElement(S)
W(S, none, w) == IF S = {} \/ Pick(1..10) <= w THEN none ELSE Pick(S)
Sources(m) == IF dag THEN {k \in Mods : Rank(k) > Rank(m)} \cup {Ghost} ELSE Mods \cup {Ghost}
RECURSIVE RandUses(_)
RandUses(n) == IF n = 0 THEN <<>> ELSE Append(RandUses(n - 1), [n |-> Pick(Names), f |-> Pick(Forms)])
\* a use that suits what the name resolves to, most of the time
Suit(c, m, n) == LET r == Resolve(c, m, n).k
                     ok == {f \in Forms : Fits(r, f)} IN
                 IF ok # {} /\ Pick(1..4) > 1 THEN Pick(ok) ELSE Pick(Forms)
RandContent(m) ==
  [decl |-> [n \in Names |-> W(Kinds, None, 6)],
   imp  |-> [n \in Names |-> W(Sources(m) \ (IF Pick(1..4) > 1 THEN {Ghost} ELSE {}), None, IF Sources(m) = {Ghost} THEN 9 ELSE 4)],
   uses |-> <<>>, list |-> Pick(BOOLEAN), bad |-> BadOdds > 0 /\ Pick(1..BadOdds) = 1, pad |-> Pick(0..3)]
SuitedUses(c, m, k) ==
  LET ns == {n \in Names : Declares(c[m], n) \/ Imports(c[m], n)}
      N == IF ns = {} \/ Pick(1..6) = 1 THEN Names ELSE ns
  IN [i \in 1..k |-> LET n == Pick(N) IN [n |-> n, f |-> IF Cyclic(c) THEN Pick(Forms) ELSE Suit(c, m, n)]]
WithUses(m, x) == [x EXCEPT !.uses = SuitedUses([cont EXCEPT ![m] = x], m, Pick(0..MaxUses))]

(* a small edit of an existing module *)
Edits(m) ==
  LET x == cont[m] e == Pick({"decl", "decl", "imp", "imp", "uses", "name", "form", "list", "bad", "pad", "all", "fix"}) n == Pick(Names)
      i == IF x.uses = <<>> THEN 0 ELSE Pick(1..Len(x.uses)) IN
  CASE e = "decl" -> [x EXCEPT !.decl[n] = W(Kinds, None, 3)]
    [] e = "imp"  -> [x EXCEPT !.imp[n] = W(Sources(m), None, 3)]
    [] e = "uses" -> [x EXCEPT !.uses = SuitedUses(cont, m, Pick(0..MaxUses))]
    [] e = "list" -> [x EXCEPT !.list = ~@]
    [] e = "name" /\ i > 0 -> [x EXCEPT !.uses[i].n = n]      \* one use now names something else
    [] e = "form" /\ i > 0 -> [x EXCEPT !.uses[i].f = Pick(Forms)]
    [] e = "bad"  -> [x EXCEPT !.bad = TRUE]
    [] e = "fix"  -> [x EXCEPT !.bad = FALSE]
    [] e = "pad"  -> [x EXCEPT !.pad = Pick(0..3)]
    [] OTHER      -> WithUses(m, TLCEval(RandContent(m)))

(* small universes for the exhaustive configuration *)
Small(m) ==
  {[decl |-> d, imp |-> i, uses |-> u, list |-> FALSE, bad |-> b, pad |-> 0] :
     d \in [Names -> Kinds \cup {None}], i \in [Names -> Mods \cup {None, Ghost}],
     u \in {<<>>} \cup {<<[n |-> n, f |-> f]>> : n \in Names, f \in Forms}, b \in (IF Queries = {"q"} THEN {FALSE} ELSE BOOLEAN)}
\* a declared name has no import: one representative
Canon(x) == \A n \in Names : x.decl[n] # None => x.imp[n] = None

\* exactly one component differs
OneOff(x, y) == Cardinality({d \in {"decl", "imp", "uses", "bad"} : x[d] # y[d]}) = 1

(* ---------------------------------------------------------------- transitions *)
Init == /\ cont = [m \in Mods |-> Absent] /\ dag \in (IF Sim THEN BOOLEAN ELSE {FALSE}) /\ rev = 1
        /\ trk = [k \in Trackers |-> NoTrk] /\ ops = <<>> /\ seen = <<>> /\ out = <<>>

Set(m, x) == /\ cont' = [cont EXCEPT ![m] = x] /\ rev' = rev + 1
             /\ ops' = Append(ops, [op |-> "set", m |-> m, x |-> x, k |-> IF Sim THEN Pick(0..1) ELSE 0])
             /\ UNCHANGED <<dag, trk, seen, out>>
Add(m) == cont[m] = Absent /\ IF Sim THEN Set(m, TLCEval(WithUses(m, TLCEval(RandContent(m))))) ELSE \E x \in Small(m) : Canon(x) /\ Set(m, x)
Edit(m) == cont[m] # Absent /\ IF Sim THEN LET y == TLCEval(Edits(m)) IN y # cont[m] /\ Set(m, y)
                                ELSE \E x \in Small(m) : Canon(x) /\ OneOff(x, cont[m]) /\ Set(m, x)
Remove(m) == /\ cont[m] # Absent /\ Cardinality(Present(cont)) > 1
             /\ cont' = [cont EXCEPT ![m] = Absent] /\ rev' = rev + 1
             /\ ops' = Append(ops, [op |-> "del", m |-> m])
             /\ UNCHANGED <<dag, trk, seen, out>>
Entry(m) == /\ cont[m] # Absent /\ rev' = rev + 1 /\ ops' = Append(ops, [op |-> "entry", m |-> m])
            /\ UNCHANGED <<cont, dag, trk, seen, out>>
\* the text of a module is set to what it already is: a new revision, no change
Touch(m) == cont[m] # Absent /\ Set(m, cont[m])
Note(o) == /\ ops' = Append(ops, o) /\ seen' = Append(seen, Owed(cont)) /\ UNCHANGED <<cont, dag, rev, out>>
Query == "q" \in Queries /\ Note([op |-> "q"]) /\ UNCHANGED trk
QueryModule(m) == "qm" \in Queries /\ Note([op |-> "qm", m |-> m]) /\ UNCHANGED trk
Delta(k) == "delta" \in Queries /\ Note([op |-> "delta", k |-> k]) /\ trk' = [trk EXCEPT ![k] = TrkAnswer(@, cont, rev).t]
Fresh(k) == /\ "delta" \in Queries /\ trk[k] # NoTrk /\ trk' = [trk EXCEPT ![k] = NoTrk] /\ ops' = Append(ops, [op |-> "new", k |-> k])
            /\ UNCHANGED <<cont, dag, rev, seen, out>>
Finish == /\ out = <<>> /\ ops # <<>> /\ seen # <<>> /\ ops[Len(ops)].op \in {"q", "qm", "delta"} /\ Len(ops) = MaxOps
          /\ out' = <<1>> /\ UNCHANGED <<cont, dag, rev, trk, ops, seen>>
Mutate == /\ Len(ops) < MaxOps - 1
          /\ \E m \in (IF Sim THEN {Pick(Mods)} ELSE Mods) : Add(m) \/ Edit(m) \/ Remove(m) \/ (Sim /\ (Entry(m) \/ Touch(m)))
Ask == /\ Len(ops) < MaxOps /\ Present(cont) # {}
       /\ (Query \/ (\E k \in Trackers : Delta(k) \/ (Sim /\ Fresh(k))) \/ (Sim /\ \E m \in {Pick(Mods)} : QueryModule(m)))
Next == out = <<>> /\ (Mutate \/ Ask \/ Finish)
Spec == Init /\ [][Next]_vars

Case == [ops |-> ops, seen |-> seen]
EmitCase == out # <<>> => PrintT("CASE " \o ToJson(Case))
\* design level: what a tracker answers is what is owed for the current sources
DeltaAnswerOK == \A k \in Trackers : TrkAnswer(trk[k], cont, rev).ans = [m \in Present(cont) |-> rev]
\* resolution always ends at a declaration of a present module, and its kind is that module's
ResolveOK == (Broken(cont) = {} /\ ~Cyclic(cont)) =>
  \A m \in Present(cont), n \in Names : LET r == Resolve(cont, m, n) IN r.k \in Kinds => (r.m \in Present(cont) /\ cont[r.m].decl[n] = r.k)
=============================================================================
