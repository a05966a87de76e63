------------------------------ MODULE Scaffold ------------------------------
(***************************************************************************)
(* Making new projects (property C16). The state is the file system around *)
(* the working directory; a transition is something the user puts there,   *)
(* or one `init` command with any path as its argument. A command either   *)
(* makes a whole new project or changes nothing that was there.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sim, MaxSteps, MaxArg, Legal, Illegal, Unclear, Extras
VARIABLES fs, log, over
vars == <<fs, log, over>>
Pick(S) == IF Sim THEN {RandomElement(IF Len(log) >= 0 THEN S ELSE {})} ELSE S
Cwd == <<"p", "q", "w">>
Names == Legal \cup Illegal \cup Unclear
Dir == [k |-> "dir"]
\* what a new project has in it, next to what is in the template besides
Template == {<<"cairom.toml">>, <<"Cargo.toml">>, <<"README.md">>, <<".gitignore">>, <<"rust-toolchain.toml">>, <<"src", "lib.rs">>, <<"src", "fibonacci.cm">>,
             <<"tests", "integration_test.rs">>, <<".cargo", "config.toml">>}
TemplateDirs == {<<>>, <<"src">>, <<"tests">>, <<".cargo">>}
Has(p) == p \in DOMAIN fs
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* ------------------------------------------------------------- where a path leads
\* at: where it leads; miss: something on the way is not there; blocked: something on the way is no directory;
\* odd: `..` behind something that is not there, or behind a link; esc: above the tree
RECURSIVE Walk(_, _, _, _, _, _)
Walk(at, comps, miss, blocked, odd, esc) ==
  IF comps = <<>> THEN [at |-> at, miss |-> miss, blocked |-> blocked, odd |-> odd, esc |-> esc]
  ELSE LET c == Head(comps) rest == Tail(comps) last == rest = <<>> IN
    IF c = "." THEN Walk(at, rest, miss, blocked, odd, esc)
    ELSE IF c = ".." THEN Walk(IF at = <<>> THEN <<>> ELSE Front(at), rest, miss, blocked, odd \/ miss, esc \/ at = <<>>)
    ELSE LET t == Append(at, c) there == Has(t) k == IF Has(t) THEN fs[t].k ELSE "none" IN
      IF last THEN [at |-> t, miss |-> miss, blocked |-> blocked, odd |-> odd, esc |-> esc]
      ELSE IF k = "link" THEN Walk(fs[t].to, rest, miss, blocked, odd \/ \E i \in DOMAIN rest : rest[i] = "..", esc)
      ELSE Walk(t, rest, miss \/ ~there, blocked \/ k \in {"file", "dangling"}, odd, esc)
Arg(a) == Walk(IF a.abs THEN <<>> ELSE Cwd, a.c, FALSE, FALSE, FALSE, FALSE)
Outcome(a) ==
  IF a.c = <<>> THEN IF a.abs THEN "open" ELSE "refuse"
  ELSE LET w == Arg(a) l == a.c[Len(a.c)] IN
    IF l = ".." \/ w.blocked \/ l \in Illegal THEN "refuse"
    ELSE IF l # "." /\ Has(w.at) THEN "refuse"
    ELSE IF l = "." \/ w.odd \/ l \in Unclear THEN IF Has(w.at) THEN "refuse" ELSE "open"
    ELSE "create"
\* after these the tree is no longer known exactly: directories on the way may have been made
Loose(a) == a.c # <<>> /\ (Outcome(a) = "open" \/ (Outcome(a) = "refuse" /\ (Arg(a).miss \/ Arg(a).odd)))
Made(t) == LET up == {SubSeq(t, 1, i) : i \in 0..Len(t)}
               ds == (up \cup {t \o d : d \in TemplateDirs}) \ DOMAIN fs
               files == {t \o f : f \in Template} IN
           [p \in DOMAIN fs \cup ds \cup files |-> IF p \in DOMAIN fs THEN fs[p] ELSE IF p \in ds THEN Dir ELSE [k |-> "file", by |-> "tool"]]
Init == fs = [p \in {<<>>, <<"p">>, <<"p", "q">>, Cwd} |-> Dir] /\ log = <<>> /\ over = FALSE
Dirs == {p \in DOMAIN fs : fs[p].k = "dir"}
Open == ~over /\ Len(log) < MaxSteps
Put(p, v) == /\ p \notin DOMAIN fs /\ fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN v ELSE fs[q]] /\ over' = FALSE
User == /\ Open
        /\ \E d \in Pick(Dirs) : \E x \in Pick(Names \cup Extras) : \E k \in Pick({"dir", "file", "dangling", "link"}) :
           /\ IF k = "link" THEN \E to \in Pick(Dirs) : Put(Append(d, x), [k |-> "link", to |-> to])
              ELSE Put(Append(d, x), IF k = "file" THEN [k |-> "file", by |-> "user"] ELSE [k |-> k])
           /\ log' = Append(log, [op |-> "put", p |-> Append(d, x), v |-> fs'[Append(d, x)]])
Run(a) == /\ Open /\ (a.c = <<>> \/ ~Arg(a).esc)      \* never above the known tree
          /\ LET o == Outcome(a) IN
             /\ fs' = IF o = "create" THEN Made(Arg(a).at) ELSE fs
             /\ over' = Loose(a)
             /\ log' = Append(log, [op |-> "init", a |-> a, o |-> o, at |-> IF a.c = <<>> THEN Cwd ELSE Arg(a).at, loose |-> Loose(a)])
Comps == Names \cup {".", ".."}
Args == UNION {[1..i -> Comps] : i \in 0..MaxArg}
\* in simulation arguments often go through what is there
RandomArg == \E n \in Pick(0..3) : \E c1 \in Pick(Comps) : \E c2 \in Pick(Comps) : \E c3 \in Pick(Legal \cup {"..", "."}) :
               \E abs \in Pick({TRUE, FALSE, FALSE}) : \E d \in Pick(Dirs) : \E legal \in Pick(Legal) : \E how \in Pick(1..4) :
               LET free == SubSeq(<<c1, c2, c3>>, 1, n) IN
               Run(CASE how = 1 -> [abs |-> abs, c |-> free]
                     [] how = 2 -> [abs |-> TRUE, c |-> d \o free]
                     [] how = 3 -> [abs |-> abs, c |-> free \o <<legal>>]
                     [] OTHER -> [abs |-> TRUE, c |-> d \o <<legal>>])
Next == \/ User
        \/ IF Sim THEN RandomArg ELSE \E c \in Args : \E abs \in {FALSE} : Run([abs |-> abs, c |-> c])
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- what holds of it
NeverLost == [][\A p \in DOMAIN fs : p \in DOMAIN fs' /\ fs'[p] = fs[p]]_vars
Whole == \A i \in DOMAIN log : (log[i].op = "init" /\ log[i].o = "create") =>
           \A f \in Template : Has(log[i].at \o f) /\ fs[log[i].at \o f] = [k |-> "file", by |-> "tool"]
Once == \A i, j \in DOMAIN log : (i # j /\ log[i].op = "init" /\ log[j].op = "init" /\ log[i].o = "create" /\ log[j].o = "create") => log[i].at # log[j].at
Under == \A p \in DOMAIN fs : p = <<>> \/ (Has(Front(p)) /\ fs[Front(p)].k = "dir")
EmitCase == (Len(log) > 0 /\ (over \/ Len(log) = MaxSteps)) => PrintT("CASE " \o ToJson([log |-> log]))
=============================================================================
