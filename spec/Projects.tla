------------------------------ MODULE Projects ------------------------------
(***************************************************************************)
(* Projects on disk (property C15). The state is a directory tree: its     *)
(* directories, the manifests in them and the files. Every transition adds *)
(* something to the tree. What discovery, the list of source files, the    *)
(* crate and the workspace have to be is defined on the tree alone, for    *)
(* every place in it to start from.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sim, MaxSteps, MaxDepth, DirNames, FileNames, Entries, BadKinds
\* a directory is the sequence of names below the root of the tree; file names are tokens
VARIABLES dirs, man, files, n
vars == <<dirs, man, files, n>>
Pick(S) == IF Sim THEN {RandomElement(IF n >= 0 THEN S ELSE {})} ELSE S
SourceNames == {"main", "lib", "x", "quote", "space", "dots", "src"}       \* NAME.cm; the others are not source files
Hidden == {"hid", "hidcm"}
NoMan == [k |-> "none"]
\* an entry is a sequence of names, the last of which is a file; sp: written with the src/ in front
EntryOf(m) == m.entry
Prefixes(d) == {SubSeq(d, 1, i) : i \in 0..Len(d)}
IsPrefix(p, d) == Len(p) <= Len(d) /\ SubSeq(d, 1, Len(p)) = p
From(d, i) == SubSeq(d, i, Len(d))
Longest(S) == CHOOSE p \in S : \A q \in S : Len(q) <= Len(p)
\* ---------------------------------------------------------------- discovery
Enclosing(d) == {p \in Prefixes(d) : p \in dirs /\ man[p].k # "none"}
SrcDir(p) == p \o <<"src">>
Visible(path) == \A i \in DOMAIN path : path[i] \notin Hidden
Sources(p) == {f \in files : IsPrefix(SrcDir(p), f.d) /\ f.f \in SourceNames /\ Visible(From(f.d, Len(p) + 2))}
Module(p, f) == From(f.d, Len(p) + 2) \o <<f.f>>
Discover(l) ==
  IF Enclosing(l.d) = {} THEN [k |-> IF l.f \in {"", "ghost"} THEN "open" ELSE "alone"]
  ELSE LET p == Longest(Enclosing(l.d)) m == man[p] IN
       IF m.k = "bad" THEN [k |-> "error"]
       ELSE [k |-> "project", at |-> p, name |-> m.name, version |-> m.version, entry |-> m.entry,
             \* without a single source file the project cannot be analysed, and a source directory that is not there is an error
             sources |-> {[d |-> f.d, f |-> f.f, m |-> Module(p, f)] : f \in Sources(p)},
             src |-> SrcDir(p) \in dirs,
             good |-> Sources(p) # {} /\ \A f \in Sources(p) : f.c = "text",
             has |-> \E f \in Sources(p) : Module(p, f) = m.entry]
Starts == {[d |-> d, f |-> ""] : d \in dirs} \cup {[d |-> d, f |-> "ghost"] : d \in dirs}
          \cup {[d |-> f.d, f |-> f.f] : f \in files} \cup {[d |-> d, f |-> "manifest"] : d \in {e \in dirs : man[e].k # "none"}}
Projects == {p \in dirs : man[p].k = "good"}
Workspace(d) == {p \in Projects : IsPrefix(d, p) /\ Visible(From(p, Len(d) + 1))}
\* ---------------------------------------------------------------- building the tree
Open == n < MaxSteps
Init == dirs = {<<>>} /\ man = [d \in {<<>>} |-> NoMan] /\ files = {} /\ n = 0
AddDirs(S) == dirs' = dirs \cup S /\ man' = [d \in dirs \cup S |-> IF d \in dirs THEN man[d] ELSE NoMan]
AddDir == /\ Open /\ n' = n + 1
          /\ \E d \in Pick({e \in dirs : Len(e) < MaxDepth}) : \E x \in Pick(DirNames) :
             d \o <<x>> \notin dirs /\ AddDirs({d \o <<x>>})
          /\ UNCHANGED files
AddFile == /\ Open /\ n' = n + 1
           /\ \E d \in Pick(dirs) : \E x \in Pick(FileNames) : \E c \in Pick(IF Sim THEN {"text", "text", "text", "text", "text", "text", "bytes"} ELSE {"text"}) :
              ~(\E f \in files : f.d = d /\ f.f = x) /\ files' = files \cup {[d |-> d, f |-> x, c |-> c]}
           /\ UNCHANGED <<dirs, man>>
Good(e, nm, v) == [k |-> "good", entry |-> e, name |-> nm, version |-> v]
AddManifest == /\ Open /\ n' = n + 1
               /\ \E d \in Pick(dirs) : man[d].k = "none" /\
                  (\/ \E e \in Pick(Entries) : \E nm \in Pick(1..2) : \E v \in Pick(0..1) : man' = [man EXCEPT ![d] = Good(e, nm, v)]
                   \/ \E b \in Pick(BadKinds) : man' = [man EXCEPT ![d] = [k |-> "bad", why |-> b]])
               /\ UNCHANGED <<dirs, files>>
\* a whole project at once
AddProject == /\ Open /\ n' = n + 1
              /\ \E d \in Pick({e \in dirs : Len(e) < MaxDepth}) : \E e \in Pick(Entries) : \E nm \in Pick(1..2) : \E v \in Pick(0..1) :
                 LET dd == {SrcDir(d) \o SubSeq(e, 1, i) : i \in 0..(Len(e) - 1)}
                     all == dirs \cup {SrcDir(d) \o SubSeq(e, 1, i) : i \in 0..(Len(e) - 1)} IN
                 /\ man[d].k = "none"
                 /\ dirs' = all
                 /\ man' = [x \in all |-> IF x = d THEN Good(e, nm, v) ELSE IF x \in dirs THEN man[x] ELSE NoMan]
                 /\ files' = files \cup (IF \E f \in files : f.d \o <<f.f>> = SrcDir(d) \o e THEN {} ELSE {[d |-> SrcDir(d) \o SubSeq(e, 1, Len(e) - 1), f |-> e[Len(e)], c |-> "text"]})
Next == \/ AddDir \/ AddFile \/ AddManifest \/ AddProject \/ (Sim /\ Open /\ (AddFile \/ AddDir))
Spec == Init /\ [][Next]_vars
BfsEntries == {<<"main">>, <<"a", "main">>}
SimEntries == {<<"main">>, <<"lib">>, <<"x">>, <<"app", "main">>, <<"app", "a", "x">>, <<"src", "main">>, <<"quote">>, <<"a", "src">>}
\* ---------------------------------------------------------------- what the definitions guarantee
Closed == \A d \in dirs : Prefixes(d) \subseteq dirs
Nearest == \A l \in Starts : LET r == Discover(l) IN r.k = "project" =>
             /\ IsPrefix(r.at, l.d) /\ \A q \in Prefixes(l.d) : Len(q) > Len(r.at) => man[q].k = "none"
             /\ \A s \in r.sources : SrcDir(r.at) \o s.m = s.d \o <<s.f>>
Distinct == \A p \in Projects : \A f, g \in Sources(p) : Module(p, f) = Module(p, g) => f.d = g.d /\ f.f = g.f
\* a place in a project and its file system neighbours agree
Inherit == \A d \in dirs : (d # <<>> /\ man[d].k = "none") =>
             Discover([d |-> d, f |-> "ghost"]) = Discover([d |-> SubSeq(d, 1, Len(d) - 1), f |-> "ghost"])
Emit == Sim => n = MaxSteps
EmitCase == Emit => PrintT("CASE " \o ToJson([dirs |-> dirs, man |-> {[d |-> d, m |-> man[d]] : d \in {e \in dirs : man[e].k # "none"}}, files |-> files,
                 ans |-> {[l |-> l, a |-> Discover(l)] : l \in Starts}, ws |-> {[d |-> d, p |-> Workspace(d)] : d \in dirs}]))
=============================================================================
