------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* What a program of the language computes (properties C22 and C23). A     *)
(* program is grown declaration by declaration (well typed by              *)
(* construction), then its main function is run on argument vectors by the *)
(* definition of the language: an environment of variables, a store of     *)
(* arrays and allocated blocks, left-to-right evaluation.                  *)
(***************************************************************************)
EXTENDS Arith, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Feats,       \* features programs may use
          NFns, Stmts, Deep
VARIABLES pr, phase, n
vars == <<pr, phase, n>>
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Chance(k) == R(1..k) = 1
With(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE
On(f) == f \in Feats
Times(k, F(_)) == FoldLeft(LAMBDA s, j : Append(s, F(j)), <<>>, [j \in 1..k |-> j])
(* ------------------------------------------------------------------ types *)
Felt == [k |-> "felt"]  U32 == [k |-> "u32"]  Bool == [k |-> "bool"]
Scalars == {Felt, U32, Bool}
Tup(es) == [k |-> "tuple", e |-> es]
Arr(t, m) == [k |-> "array", e |-> <<t>>, n |-> m]
Ptr(t) == [k |-> "ptr", e |-> <<t>>]
Str(s) == [k |-> "struct", e |-> [j \in 1..Len(s.fs) |-> s.fs[j].t], name |-> s.n, f |-> [j \in 1..Len(s.fs) |-> s.fs[j].n]]
\* values that are copied, all the way down
RECURSIVE Flat(_)
Flat(t) == t.k \in {"felt", "u32", "bool"} \/ (t.k \in {"tuple", "struct"} /\ \A j \in 1..Len(t.e) : Flat(t.e[j]))
\* values that may be copied: a copy of a pointer leads to the same block
RECURSIVE Copied(_)
Copied(t) == t.k \in {"felt", "u32", "bool"} \/ (t.k = "ptr" /\ On("ptrval")) \/ (t.k \in {"tuple", "struct"} /\ \A j \in 1..Len(t.e) : Copied(t.e[j]))
(* ------------------------------------------------------------- evaluation
   m: env (innermost last), heap, fuel, err ("" or why the run ends) *)
Max2(S) == CHOOSE i \in S : \A j \in S : j <= i
Find(env, x) == Max2({i \in 1..Len(env) : env[i].n = x})
Get(env, x) == env[Find(env, x)].v
Fail(m, why) == [m EXCEPT !.err = why]
Lim == 2147483646
Nat32(u) == u[1] + u[2] * L16     \* only where it fits
BinOp(op, t, x, y) ==
  CASE op = "==" -> x = y [] op = "!=" -> x # y [] op = "&&" -> x /\ y [] op = "||" -> x \/ y
    [] t = "felt" -> (CASE op = "+" -> AddF(x, y) [] op = "-" -> SubF(x, y) [] op = "*" -> MulF(x, y) [] op = "/" -> DivF(x, y))
    [] t = "u32" -> (CASE op = "+" -> AddU(x, y) [] op = "-" -> SubU(x, y) [] op = "*" -> MulU(x, y)
                       [] op = "/" -> DivRemU(x, y)[1] [] op = "%" -> DivRemU(x, y)[2]
                       [] op = "&" -> AndU(x, y) [] op = "|" -> OrU(x, y) [] op = "^" -> XorU(x, y)
                       [] op = "<" -> LtU(x, y) [] op = ">" -> LtU(y, x) [] op = "<=" -> ~LtU(y, x) [] op = ">=" -> ~LtU(x, y))
Zero(t) == IF t = "felt" THEN 0 ELSE <<0, 0>>
RECURSIVE Default(_)
Default(t) == CASE t.k = "felt" -> 0 [] t.k = "u32" -> <<0, 0>> [] t.k = "bool" -> FALSE [] t.k \in {"tuple", "struct"} -> [j \in 1..Len(t.e) |-> Default(t.e[j])]
FnOf(f) == pr.fns[CHOOSE i \in 1..Len(pr.fns) : pr.fns[i].n = f]
CapF(u) == u[2] < 32767 \/ (u[2] = 32767 /\ u[1] < 65535)
RECURSIVE Ev(_, _), EvAll(_, _), Store(_, _, _), X(_, _), Xs(_, _), Blk(_, _), Loop(_, _)
NewBlock(vs, m) == [v |-> Len(m.heap) + 1, m |-> [m EXCEPT !.heap = Append(@, vs)]]
EvAll(es, m) == IF es = <<>> \/ m.err # "" THEN [v |-> <<>>, m |-> m]
                ELSE LET a == Ev(es[1], m) b == EvAll(Tail(es), a.m) IN [v |-> <<a.v>> \o b.v, m |-> b.m]
Ev(e, m) ==
  CASE e.k = "lit" -> [v |-> e.v, m |-> m]
    [] e.k = "var" -> [v |-> Get(m.env, e.n), m |-> m]
    [] e.k = "un" -> LET a == Ev(e.a, m) IN IF a.m.err # "" THEN a ELSE [a EXCEPT !.v = IF e.op = "!" THEN ~@ ELSE NegF(@)]
    [] e.k = "bin" ->
         LET a == Ev(e.a, m) IN
         IF a.m.err # "" THEN a
         ELSE LET b == Ev(e.b, a.m) IN
              IF b.m.err # "" THEN b
              ELSE IF e.op \in {"/", "%"} /\ b.v = Zero(e.t) THEN [b EXCEPT !.m = Fail(@, "zero")]
              ELSE [v |-> BinOp(e.op, e.t, a.v, b.v), m |-> b.m]
    [] e.k = "cast" -> LET a == Ev(e.a, m) IN IF a.m.err # "" THEN a ELSE IF ~CapF(a.v) THEN [a EXCEPT !.m = Fail(@, "cast")] ELSE [a EXCEPT !.v = FofU(@)]
    [] e.k \in {"tup", "str"} -> EvAll(e.es, m)
    [] e.k = "arr" -> LET a == EvAll(e.es, m) IN IF a.m.err # "" THEN a ELSE NewBlock(a.v, a.m)
    [] e.k = "rep" -> LET a == Ev(e.a, m) IN IF a.m.err # "" THEN a ELSE NewBlock([j \in 1..e.n |-> a.v], a.m)
    [] e.k = "new" -> NewBlock([j \in 1..e.n |-> Default(e.t)], m)
    [] e.k = "fld" -> LET a == Ev(e.a, m) IN IF a.m.err # "" THEN a ELSE [a EXCEPT !.v = @[e.j]]
    [] e.k = "idx" -> LET a == Ev(e.a, m) i == Ev(e.i, a.m) IN IF a.m.err # "" THEN a ELSE [v |-> i.m.heap[a.v][i.v + 1], m |-> i.m]
    [] e.k = "call" ->
         LET a == EvAll(e.es, m) f == FnOf(e.f) IN
         IF a.m.err # "" THEN a
         ELSE IF a.m.fuel = 0 THEN [a EXCEPT !.m = Fail(@, "fuel")]
         ELSE LET r == Xs(f.body, [a.m EXCEPT !.env = pr.cenv \o [j \in 1..Len(f.ps) |-> [n |-> f.ps[j].n, v |-> a.v[j]]], !.fuel = @ - 1])
              IN [v |-> r.v, m |-> [r.m EXCEPT !.env = m.env]]
\* assigning v to a place
Store(p, v, m) ==
  CASE p.k = "var" -> [m EXCEPT !.env[Find(m.env, p.n)].v = v]
    [] p.k = "fld" -> LET a == Ev(p.a, m) IN Store(p.a, [a.v EXCEPT ![p.j] = v], m)
    [] p.k = "idx" -> LET a == Ev(p.a, m) i == Ev(p.i, m) IN [m EXCEPT !.heap[a.v][i.v + 1] = v]
\* a statement: the way it ends (c) and the value returned
Go(m) == [m |-> m, c |-> IF m.err = "" THEN "go" ELSE "err", v |-> 0]
Bind(m, x, v) == [m EXCEPT !.env = Append(@, [n |-> x, v |-> v])]
RECURSIVE BindAll(_, _, _)
BindAll(m, xs, vs) == IF xs = <<>> THEN m ELSE BindAll(Bind(m, xs[1], vs[1]), Tail(xs), Tail(vs))
Xs(ss, m) == IF ss = <<>> THEN Go(m) ELSE LET r == X(ss[1], m) IN IF r.c = "go" THEN Xs(Tail(ss), r.m) ELSE r
Blk(ss, m) == LET r == Xs(ss, m) IN [r EXCEPT !.m.env = SubSeq(@, 1, Len(m.env))]
\* s: condition (or TRUE), body, step
Loop(s, m) ==
  IF m.fuel = 0 THEN Go(Fail(m, "fuel"))
  ELSE LET c == IF s.cond = <<>> THEN [v |-> TRUE, m |-> m] ELSE Ev(s.cond[1], m) IN
       IF c.m.err # "" \/ ~c.v THEN Go(c.m)
       ELSE LET b == Blk(s.body, [c.m EXCEPT !.fuel = @ - 1]) IN
            IF b.c = "break" THEN Go(b.m)
            ELSE IF b.c \in {"go", "continue"} THEN LET st == Xs(s.step, b.m) IN IF st.c = "go" THEN Loop(s, st.m) ELSE st
            ELSE b
X(s, m) ==
  IF m.fuel = 0 THEN Go(Fail(m, "fuel")) ELSE
  LET m1 == [m EXCEPT !.fuel = @ - 1] IN
  CASE s.k = "let" -> LET a == Ev(s.e, m1) IN IF a.m.err # "" THEN Go(a.m) ELSE Go(Bind(a.m, s.n, a.v))
    [] s.k = "lett" -> LET a == Ev(s.e, m1) IN IF a.m.err # "" THEN Go(a.m) ELSE Go(BindAll(a.m, s.ns, a.v))
    [] s.k = "set" -> LET a == Ev(s.e, m1) IN IF a.m.err # "" THEN Go(a.m) ELSE Go(Store(s.p, a.v, a.m))
    [] s.k = "if" -> LET a == Ev(s.e, m1) IN IF a.m.err # "" THEN Go(a.m) ELSE Blk(IF a.v THEN s.then ELSE s.else, a.m)
    [] s.k = "blk" -> Blk(s.body, m1)
    [] s.k \in {"while", "loop"} -> Loop(s, m1)
    [] s.k = "for" -> LET i == Xs(s.init, m1) IN IF i.c # "go" THEN i ELSE LET r == Loop(s, i.m) IN [r EXCEPT !.m.env = SubSeq(@, 1, Len(m.env))]
    [] s.k = "assert" -> LET a == Ev(s.e, m1) IN IF a.m.err # "" THEN Go(a.m) ELSE Go(IF a.v THEN a.m ELSE Fail(a.m, "assert"))
    [] s.k = "expr" -> Go(Ev(s.e, m1).m)
    [] s.k = "ret" -> LET a == Ev(s.e, m1) IN IF a.m.err # "" THEN Go(a.m) ELSE [m |-> a.m, c |-> "ret", v |-> a.v]
    [] s.k \in {"break", "continue"} -> [m |-> m1, c |-> s.k, v |-> 0]
(* ------------------------------------------------------------- generation
   c: vs (variables: n, t, ro, b: bound of a counter or 0), fs callable functions, k next name, r result, lp: in a loop *)
Lits == [felt |-> {0, 1, 2, 3, 5, 7, 100, 65536, 1073741824, 2147483645, 2147483646},
         u32 |-> {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<7, 0>>, <<255, 0>>, <<65535, 0>>, <<0, 1>>, <<1, 1>>, <<65535, 32767>>, <<0, 32768>>, <<65535, 65535>>, <<65534, 65535>>},
         bool |-> {TRUE, FALSE}]
Lit(t, v) == [k |-> "lit", t |-> t, v |-> v]
RLit(t) == Lit(t.k, R(Lits[t.k]))
Var(x) == [k |-> "var", n |-> x]
Visible(c) == {c.vs[i] : i \in {i \in 1..Len(c.vs) : \A j \in (i + 1)..Len(c.vs) : c.vs[j].n # c.vs[i].n}}
Name(p, k) == p \o ToString(k)
\* the places of type t a variable leads to: p a place of type u
RECURSIVE Sub(_, _, _, _)
Sub(p, u, c, d) ==
  {[p |-> p, t |-> u]} \cup
  (IF d = 0 THEN {}
   ELSE CASE u.k \in {"tuple", "struct"} -> UNION {Sub([k |-> "fld", a |-> p, f |-> IF u.k = "tuple" THEN ToString(j - 1) ELSE u.f[j], j |-> j], u.e[j], c, d - 1) : j \in 1..Len(u.e)}
          [] u.k \in {"array", "ptr"} ->
               LET len == IF u.k = "array" THEN u.n ELSE 2 IN
               UNION {Sub([k |-> "idx", a |-> p, i |-> i], u.e[1], c, d - 1) :
                      i \in {Lit("felt", j) : j \in 0..(len - 1)} \cup {Var(v.n) : v \in {v \in Visible(c) : v.b > 0 /\ v.b <= len}}}
          [] OTHER -> {})
AllPlaces(c) == UNION {Sub(Var(v.n), v.t, c, Deep) : v \in Visible(c)}
Places(t, c) == {q.p : q \in {q \in AllPlaces(c) : q.t = t}}
RECURSIVE Root(_)
Root(p) == IF p.k = "var" THEN p.n ELSE Root(p.a)
RECURSIVE Through(_)    \* does a place lead through an array or a pointer
Through(p) == p.k # "var" /\ (p.k = "idx" \/ Through(p.a))
ROf(c, x) == (CHOOSE v \in Visible(c) : v.n = x).ro
Settable(c) == {q \in AllPlaces(c) : Copied(q.t) /\ ~ROf(c, Root(q.p)) /\ (q.p.k = "var" => On("setvar")) /\ (q.t.k \notin {"felt", "u32", "bool"} => On("setagg"))
                                     /\ (q.p.k = "fld" => IF Through(q.p) THEN On("setdeep") ELSE On("setfld")) /\ (q.p.k = "idx" => On("setidx"))}
RECURSIVE GE(_, _, _), GEs(_, _, _)
Bin(op, t, a, b) == [k |-> "bin", op |-> op, t |-> t, a |-> a, b |-> b]
GEs(ts, d, c) == IF ts = <<>> THEN <<>> ELSE <<GE(ts[1], d, c)>> \o GEs(Tail(ts), d, c)
Calls(t, c) == IF On("call") THEN {f \in ToSet(c.fs) : f.r = t} ELSE {}
Call(f, d, c) == [k |-> "call", f |-> f.n, es |-> IF f.rec THEN <<Lit("u32", <<R(0..4), 0>>)>> \o GEs(Tail([j \in 1..Len(f.ps) |-> f.ps[j].t]), d, c)
                                                  ELSE GEs([j \in 1..Len(f.ps) |-> f.ps[j].t], d, c)]
\* a number that is not zero, or an argument of main (x is never assigned); the compiler rejects a division by a zero it can see
Args(t, c) == {v \in Visible(c) : v.n \in {"xf", "xu"} /\ v.t = t}
Div(t, d, c) == IF Args(t, c) # {} /\ Chance(3) THEN Var((CHOOSE v \in Args(t, c) : TRUE).n)
                ELSE IF t.k = "felt" THEN Lit("felt", R(Lits.felt \ {0}))
                ELSE IF Chance(3) THEN Lit("u32", R(Lits.u32 \ {<<0, 0>>})) ELSE Bin("|", "u32", GE(t, d - 1, c), Lit("u32", <<1, 0>>))
Leaf(t, c) == With(Places(t, c), LAMBDA ps : IF ps # {} /\ ~Chance(5) THEN R(ps) ELSE RLit(t))
GScalar(t, d, c, k) ==
  IF t.k = "bool" THEN
    (CASE k <= 5 -> Bin(R({"==", "!="}), "felt", GE(Felt, d - 1, c), GE(Felt, d - 1, c))
       [] k \in 6..11 -> Bin(R({"==", "!=", "<", "<=", ">", ">="}), "u32", GE(U32, d - 1, c), GE(U32, d - 1, c))
       [] k \in 12..14 -> Bin(R({"&&", "||"}), "bool", GE(Bool, d - 1, c), GE(Bool, d - 1, c))
       [] k = 15 -> Bin(R({"==", "!="}), "bool", GE(Bool, d - 1, c), GE(Bool, d - 1, c))
       [] OTHER -> [k |-> "un", op |-> "!", a |-> GE(Bool, d - 1, c)])
  ELSE
    (CASE k <= 9 -> Bin(R(IF t.k = "felt" \/ ~On("bits") THEN {"+", "-", "*"} ELSE {"+", "-", "*", "&", "|", "^"}), t.k, GE(t, d - 1, c), GE(t, d - 1, c))
       [] k \in 10..12 -> Bin(R(IF t.k = "felt" THEN {"/"} ELSE {"/", "%"}), t.k, GE(t, d - 1, c), Div(t, d, c))
       [] k = 13 /\ t.k = "felt" -> With(GE(t, d - 1, c), LAMBDA a : IF a.k = "lit" THEN a ELSE [k |-> "un", op |-> "-", a |-> a])
       [] k = 14 /\ t.k = "felt" /\ On("cast") -> [k |-> "cast", a |-> IF Args(U32, c) # {} /\ Chance(2) THEN Var("xu") ELSE Bin("%", "u32", GE(U32, d - 1, c), Lit("u32", <<R({7, 255, 65535}), 0>>))]
       [] OTHER -> Leaf(t, c))
\* an element of an array literal: the code generator takes memory to be zero where a zero is written (known finding), so none of
\* these can be seen to be zero by the compiler
Fixed(t, c) == {Var(v.n) : v \in {v \in Visible(c) : v.ro /\ v.b = 0 /\ v.t = t /\ v.n \in {"xf", "xu", "n"}}}
NZ(t, d, c) == CASE t = Bool -> Lit("bool", TRUE)
              [] t \notin Scalars -> GE(t, d, c)
              [] OTHER -> With(<<Fixed(t, c), Lit(t.k, R(Lits[t.k] \ {Zero(t.k)}))>>, LAMBDA x :
                            IF x[1] = {} \/ Chance(3) THEN x[2] ELSE IF Chance(2) THEN R(x[1]) ELSE Bin("+", t.k, R(x[1]), x[2]))
Compose(t, d, c) ==
  CASE t.k = "tuple" -> [k |-> "tup", es |-> GEs(t.e, d - 1, c)]
    [] t.k = "struct" -> [k |-> "str", n |-> t.name, f |-> t.f, es |-> GEs(t.e, d - 1, c)]
    [] t.k = "array" -> IF Chance(4) THEN [k |-> "rep", a |-> NZ(t.e[1], d - 1, c), n |-> t.n] ELSE [k |-> "arr", es |-> Times(t.n, LAMBDA j : NZ(t.e[IF j > 0 THEN 1 ELSE 2], d - 1, c))]
    [] t.k = "ptr" -> [k |-> "new", t |-> t.e[1], n |-> 2]
    [] OTHER -> RLit(t)
GE(t, d, c) ==
  IF t \in Scalars THEN
    (IF d <= 0 THEN Leaf(t, c)
     ELSE With(<<R(1..20), Calls(t, c)>>, LAMBDA x :
            IF x[1] <= 3 /\ x[2] # {} THEN With(R(x[2]), LAMBDA f : Call(f, d - 1, c)) ELSE IF x[1] <= 5 THEN Leaf(t, c) ELSE GScalar(t, d, c, R(1..18))))
  ELSE IF t.k = "ptr" /\ Calls(t, c) # {} /\ d > 0 /\ Chance(3) THEN With(R(Calls(t, c)), LAMBDA f : Call(f, d - 1, c))
  ELSE IF ~Copied(t) \/ t.k = "ptr" THEN With(IF t.k \in {"array", "ptr"} /\ On("alias") /\ Chance(2) THEN {p \in Places(t, c) : ~ROf(c, Root(p))} ELSE {}, LAMBDA ps : IF ps # {} THEN R(ps) ELSE Compose(t, d, c))
  ELSE With(<<R(1..10), Calls(t, c), IF On("copy") THEN Places(t, c) ELSE {}>>, LAMBDA x :
         IF x[1] <= 3 /\ x[2] # {} /\ d > 0 THEN With(R(x[2]), LAMBDA f : Call(f, d - 1, c))
         ELSE IF x[1] <= 7 /\ x[3] # {} THEN R(x[3]) ELSE Compose(t, d, c))
\* functions that take arrays or pointers are given ones that exist
\* statements: ss, and the context behind them
Types(c) == {Felt, U32, Bool} \cup (IF On("agg") THEN c.ts ELSE {}) \cup (IF On("array") THEN c.as ELSE {}) \cup (IF On("ptr") THEN c.ps ELSE {})
PickT(c) == IF Chance(2) THEN R(Scalars) ELSE R(Types(c))
Decl(c, x, t) == [c EXCEPT !.vs = Append(@, [n |-> x, t |-> t, ro |-> FALSE, b |-> 0]), !.k = @ + 1]
NewName(c) == IF On("shadow") /\ Chance(6) THEN (LET o == {v.n : v \in {v \in Visible(c) : ~v.ro}} IN IF o # {} THEN R(o) ELSE Name("v", c.k)) ELSE Name("v", c.k)
Let(x, t, e) == [k |-> "let", n |-> x, t |-> t, e |-> e]
RECURSIVE GS(_, _), GB(_, _, _)
GB(c, k, d) == IF k = 0 THEN <<>> ELSE With(GS(c, d), LAMBDA g : g.ss \o (IF g.stop THEN <<>> ELSE GB(g.c, k - 1, d)))
Cnt(c, x, b) == [c EXCEPT !.vs = Append(@, [n |-> x, t |-> Felt, ro |-> TRUE, b |-> b]), !.k = @ + 1, !.lp = TRUE]
Inc(x, op) == [k |-> "set", p |-> Var(x), e |-> Bin(op, "felt", Var(x), Lit("felt", 1))]
GLoop(c, d, kind, b) ==
  LET x == Name("i", c.k) c2 == Cnt(c, x, b) IN
  With(With(Bin("!=", "felt", Var(x), Lit("felt", b)), LAMBDA l : IF On("conds") /\ kind < 3 /\ Chance(2) THEN With(GE(Bool, 2, [c2 EXCEPT !.vs[Len(c2.vs)].b = 0]), LAMBDA e : IF Chance(2) THEN Bin("&&", "bool", l, e) ELSE Bin("&&", "bool", e, l)) ELSE l), LAMBDA lim :
  CASE kind = 1 -> [ss |-> <<[k |-> "for", init |-> <<Let(x, Felt, Lit("felt", 0))>>, cond |-> <<lim>>, step |-> <<Inc(x, "+")>>, body |-> GB(c2, R(1..3), d - 1)]>>, c |-> [c EXCEPT !.k = @ + 1], stop |-> FALSE]
    [] kind = 2 -> [ss |-> <<Let(x, Felt, Lit("felt", 0)), [k |-> "while", cond |-> <<lim>>, step |-> <<>>, body |-> GB([c2 EXCEPT !.lp = FALSE], R(1..3), d - 1) \o <<Inc(x, "+")>>]>>,
                    c |-> [c2 EXCEPT !.lp = c.lp, !.vs[Len(c2.vs)].b = 0], stop |-> FALSE]
    [] OTHER -> [ss |-> <<Let(x, Felt, Lit("felt", 0)),
                          [k |-> "loop", cond |-> <<>>, step |-> <<>>,
                           body |-> <<[k |-> "if", e |-> Bin("==", "felt", Var(x), Lit("felt", b)), then |-> <<[k |-> "break"]>>, else |-> <<>>]>>
                                    \o GB([c2 EXCEPT !.lp = FALSE], R(1..3), d - 1) \o <<Inc(x, "+")>>]>>,
                 c |-> [c2 EXCEPT !.lp = c.lp, !.vs[Len(c2.vs)].b = 0], stop |-> FALSE])
Same(c, s) == [ss |-> <<s>>, c |-> c, stop |-> FALSE]
GLet(c, t, x) == [ss |-> <<Let(x, t, GE(t, Deep, c))>>, c |-> Decl(c, x, t), stop |-> FALSE]
RECURSIVE DeclAll(_, _, _)
DeclAll(c, xs, ts) == IF xs = <<>> THEN c ELSE DeclAll(Decl(c, xs[1], ts[1]), Tail(xs), Tail(ts))
GSet(c) == With(Settable(c), LAMBDA S :
             IF S = {} THEN GLet(c, Felt, Name("v", c.k)) ELSE With(R(S), LAMBDA q : Same(c, [k |-> "set", p |-> q.p, e |-> GE(q.t, Deep, c)])))
GSk(c, d, k) ==
  CASE k <= 6 -> With(<<PickT(c), NewName(c)>>, LAMBDA z : GLet(c, z[1], z[2]))
    [] k \in 7..12 -> GSet(c)
    [] k \in 13..15 /\ d > 0 -> Same(c, [k |-> "if", e |-> GE(Bool, Deep, c), then |-> GB(c, R(1..3), d - 1), else |-> IF Chance(2) THEN <<>> ELSE GB(c, R(1..3), d - 1)])
    [] k \in 16..18 /\ d > 0 /\ On("loop") -> With(<<R(1..3), R(1..3)>>, LAMBDA z : GLoop(c, d, z[1], z[2]))
    [] k = 19 /\ On("assert") -> Same(c, [k |-> "assert", e |-> With(GE(R({Felt, U32}), 1, c), LAMBDA e : IF Chance(3) THEN GE(Bool, 1, c) ELSE Bin("==", "felt", Lit("felt", 3), Lit("felt", 3)))])
    [] k = 20 /\ d > 0 /\ d < 2 -> IF c.lp /\ Chance(2) THEN Same(c, [k |-> "if", e |-> GE(Bool, 2, c), then |-> <<[k |-> R({"break", "continue"})]>>, else |-> <<>>])
                                  ELSE Same(c, [k |-> "if", e |-> GE(Bool, 2, c), then |-> <<[k |-> "ret", e |-> GE(c.r, 2, c)]>>, else |-> <<>>])
    [] k = 21 /\ c.fs # <<>> /\ On("call") -> Same(c, [k |-> "expr", e |-> With(R(ToSet(c.fs)), LAMBDA f : Call(f, 1, c))])
    [] k = 22 /\ On("destr") /\ \E t \in c.ts : t.k = "tuple" ->
         With(R({t \in c.ts : t.k = "tuple"}), LAMBDA t :
           LET xs == [j \in 1..Len(t.e) |-> Name("v", c.k + j - 1)] IN [ss |-> <<[k |-> "lett", ns |-> xs, t |-> t, e |-> GE(t, Deep, c)]>>, c |-> DeclAll(c, xs, t.e), stop |-> FALSE])
    [] k = 23 /\ d > 0 -> Same(c, [k |-> "blk", body |-> GB(c, R(1..3), d - 1)])
    \* a nested block may end here
    [] k = 24 /\ d < 2 /\ On("leave") ->
         [ss |-> <<IF c.lp /\ Chance(2) THEN [k |-> R({"break", "continue"})] ELSE [k |-> "ret", e |-> GE(c.r, 2, c)]>>, c |-> c, stop |-> TRUE]
    [] OTHER -> GSet(c)
GS(c, d) == GSk(c, d, R(1..24))
Ctx(ps, r) == [vs |-> pr.cvs \o [j \in 1..Len(ps) |-> [n |-> ps[j].n, t |-> ps[j].t, ro |-> ps[j].n \in {"xf", "xu"}, b |-> 0]], fs |-> pr.fns, k |-> 1, r |-> r, lp |-> FALSE, ts |-> pr.ts, as |-> pr.as, ps |-> pr.ps]
\* the rest of a function: a body whose last statement gives the result
RECURSIVE Behind(_, _)
Behind(c, ss) == IF ss = <<>> THEN c ELSE Behind(IF ss[1].k = "let" THEN Decl(c, ss[1].n, ss[1].t) ELSE IF ss[1].k = "lett" THEN DeclAll(c, ss[1].ns, ss[1].t.e) ELSE c, Tail(ss))
\* counters declared before a loop stay read-only behind it
Frozen(c) == [c EXCEPT !.vs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.ro = TRUE]]]
Body(c) == With(GB(c, R(1..Stmts), 2), LAMBDA ss : ss \o <<[k |-> "ret", e |-> GE(c.r, Deep, Frozen(Behind(c, ss)))]>>)
RetT(main) == R({Felt, U32, Bool} \cup (IF On("agg") THEN {t \in pr.ts : IF main THEN Flat(t) ELSE Copied(t)} ELSE {}) \cup {t \in pr.ps : ~main /\ On("ptrval")})
\* ------------------------------------------------------------ transitions
Init == /\ pr = [sts |-> <<>>, cs |-> <<>>, cvs |-> <<>>, cenv |-> <<>>, cheap |-> <<>>, fns |-> <<>>, ts |-> {}, as |-> {}, ps |-> {}, calls |-> <<>>] /\ phase = "types" /\ n = 0
RECURSIVE Leaves(_)
Leaves(t) == IF t.k \in {"tuple", "struct"} THEN Leaves(t.e[1]) + (IF Len(t.e) > 1 THEN Leaves(t.e[2]) ELSE 0) + (IF Len(t.e) > 2 THEN Leaves(t.e[3]) ELSE 0) ELSE 1
Small == {t \in pr.ts : Leaves(t) <= 3}
PartT(k) == IF On("ptrval") /\ Chance(5) THEN Ptr(Felt) ELSE IF Small # {} /\ Chance(4) THEN R(Small) ELSE R(IF k >= 0 THEN Scalars ELSE {})
Shape ==
  /\ phase = "types" /\ n < 3
  /\ \E kind \in {IF On("agg") THEN R(1..2) ELSE 3} :
       CASE kind = 1 -> pr' = [pr EXCEPT !.ts = @ \cup {Tup(Times(R(2..3), LAMBDA k : PartT(k)))}]
         [] kind = 2 -> \E s \in {[n |-> Name("S", n), fs |-> Times(R(1..3), LAMBDA k : [n |-> Name("f", k), t |-> PartT(k)])]} :
                          pr' = [pr EXCEPT !.sts = Append(@, s), !.ts = @ \cup {Str(s)}]
         [] OTHER -> pr' = pr
  /\ phase' = "types" /\ n' = n + 1
Elems == Scalars \cup (IF On("aggelem") THEN {t \in pr.ts : Flat(t)} ELSE {})
Shapes == /\ phase = "types" /\ n = 3
          /\ pr' = [pr EXCEPT !.as = {Arr(R(Elems), R(1..4)), Arr(R(Scalars), R(2..4))}, !.ps = {Ptr(R(Elems))} \cup (IF On("ptrval") THEN {Ptr(Felt)} ELSE {})]
          /\ phase' = "consts" /\ n' = n + 1
CType == IF On("constarr") /\ Chance(3) THEN Arr(R(Scalars), R(1..3)) ELSE R(Scalars)
CExpr(t) == IF t.k = "array" THEN [k |-> "arr", es |-> Times(t.n, LAMBDA j : RLit(IF j > 0 THEN t.e[1] ELSE Felt))] ELSE RLit(t)
Const ==
  /\ phase = "consts" /\ n < 6 /\ On("const")
  /\ \E t \in {CType} : \E e \in {CExpr(t)} :
       LET x == Name("K", n) a == Ev(e, [env |-> <<>>, heap |-> pr.cheap, fuel |-> 9, err |-> ""]) IN
       pr' = [pr EXCEPT !.cs = Append(@, [n |-> x, t |-> t, e |-> e]), !.cvs = Append(@, [n |-> x, t |-> t, ro |-> TRUE, b |-> 0]),
                        !.cenv = Append(@, [n |-> x, v |-> a.v]), !.cheap = a.m.heap]
  /\ n' = n + 1 /\ phase' = phase
Consts == phase = "consts" /\ (n >= 4) /\ phase' = "fns" /\ n' = n + 1 /\ pr' = pr
ParamT == IF Chance(2) THEN R(Scalars) ELSE R({Felt, U32} \cup (IF On("agg") THEN pr.ts ELSE {}) \cup (IF On("arrayarg") THEN pr.as ELSE {}) \cup (IF On("ptrarg") THEN pr.ps ELSE {}))
Param(k) == [n |-> Name("p", k), t |-> IF k > 0 THEN ParamT ELSE Felt]
\* f(n, ...) calls itself with n - 1
RecFn(name, ps, r) ==
  With(Ctx(<<[n |-> "n", t |-> U32]>> \o ps, r), LAMBDA c :
    LET ro == [c EXCEPT !.vs[Len(pr.cvs) + 1].ro = TRUE]
        self == [k |-> "call", f |-> name, es |-> <<Bin("-", "u32", Var("n"), Lit("u32", <<1, 0>>))>> \o GEs([j \in 1..Len(ps) |-> ps[j].t], 1, ro)]
    IN [n |-> name, ps |-> <<[n |-> "n", t |-> U32]>> \o ps, r |-> r, rec |-> TRUE,
        body |-> <<[k |-> "if", e |-> Bin("==", "u32", Var("n"), Lit("u32", <<0, 0>>)), then |-> <<[k |-> "ret", e |-> GE(r, 1, ro)]>>, else |-> <<>>], Let("w", r, self),
                   [k |-> "ret", e |-> GE(r, Deep, Decl(ro, "w", r))]>>])
Fn == /\ phase = "fns" /\ Len(pr.fns) < NFns
      /\ \E r \in {RetT(FALSE)} : \E ps \in {Times(R(0..3), LAMBDA k : Param(k))} : \E rec \in {On("rec") /\ Chance(3)} :
           \E f \in {IF rec THEN RecFn(Name("g", Len(pr.fns)), ps, r) ELSE [n |-> Name("g", Len(pr.fns)), ps |-> ps, r |-> r, rec |-> FALSE, body |-> Body(Ctx(ps, r))]} :
             pr' = [pr EXCEPT !.fns = Append(@, f)]
      /\ n' = n + 1 /\ phase' = phase
Main == /\ phase = "fns" /\ Len(pr.fns) = NFns
        /\ \E r \in {RetT(TRUE)} : \E ps \in {
               (IF Chance(2) THEN <<[n |-> "xf", t |-> Felt], [n |-> "xu", t |-> U32]>> ELSE <<>>) \o
               Times(R(0..3), LAMBDA k : [n |-> Name("p", k), t |-> R(IF k > 0 THEN Scalars \cup {t \in pr.ts : On("agg") /\ Flat(t)} ELSE {})])} :
             pr' = [pr EXCEPT !.fns = Append(@, [n |-> "main", ps |-> ps, r |-> r, rec |-> FALSE, body |-> Body(Ctx(ps, r))])]
        /\ n' = n + 1 /\ phase' = "run"
RECURSIVE ArgV(_)
ArgV(t) == IF t \in Scalars THEN R(Lits[t.k]) ELSE Times(Len(t.e), LAMBDA j : ArgV(t.e[j]))
Start == [env |-> <<>>, heap |-> pr.cheap, fuel |-> 400, err |-> ""]
RunOn(as) == LET f == FnOf("main") r == Xs(f.body, [Start EXCEPT !.env = pr.cenv \o [j \in 1..Len(f.ps) |-> [n |-> f.ps[j].n, v |-> as[j]]]])
             IN [args |-> as, err |-> r.m.err, v |-> r.v]
Run == /\ phase = "run" /\ Len(pr.calls) < (IF FnOf("main").ps = <<>> THEN 1 ELSE 4)
       /\ \E as \in {Times(Len(FnOf("main").ps), LAMBDA j : ArgV(FnOf("main").ps[j].t))} : pr' = [pr EXCEPT !.calls = Append(@, RunOn(as))]
       /\ n' = n + 1 /\ phase' = phase
Done == phase = "run" /\ Len(pr.calls) = (IF FnOf("main").ps = <<>> THEN 1 ELSE 4) /\ phase' = "done" /\ n' = n + 1 /\ pr' = pr
Next == Shape \/ Shapes \/ Const \/ Consts \/ Fn \/ Main \/ Run \/ Done
Spec == Init /\ [][Next]_vars
(* -------------------------------------------------------------- what holds *)
RECURSIVE Has(_, _)
Has(v, t) == CASE t.k = "felt" -> v \in 0..(P - 1) [] t.k = "u32" -> IsU(v) [] t.k = "bool" -> v \in BOOLEAN [] OTHER -> Len(v) = Len(t.e) /\ \A j \in 1..Len(t.e) : Has(v[j], t.e[j])
\* a run that ends gives a value of the type main says
Typed == \A k \in 1..Len(pr.calls) : pr.calls[k].err = "" => Has(pr.calls[k].v, FnOf("main").r)
EmitCase == phase = "done" => PrintT("CASE " \o ToJson([sts |-> pr.sts, cs |-> pr.cs, fns |-> pr.fns, calls |-> pr.calls]))
=============================================================================
