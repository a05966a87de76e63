--------------------------------- MODULE VM ---------------------------------
(***************************************************************************)
(* The machine that runs compiled programs (properties C20 and C21). State:*)
(* program counter, frame pointer, memory; a transition executes one       *)
(* instruction or ends a segment. The program is written while it runs: a  *)
(* cell that nothing has looked at yet gets its instruction when the       *)
(* program counter first reaches it.                                       *)
(***************************************************************************)
EXTENDS Instr, FiniteSets, TLC, Json
CONSTANTS Sim, MaxExec,      \* instructions per run
          Values,            \* interesting values
          Cuts               \* segment lengths
VARIABLES pc, fp, mem, prog, touched, run, seg, segs, status, n
vars == <<pc, fp, mem, prog, touched, run, seg, segs, status, n>>
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
MaxAddr == 268435455
Zero == <<0, 0, 0, 0>>
W(v) == <<v, 0, 0, 0>>
(* ------------------------------------------------------------------ memory
   m: memory, accesses so far, what is wrong *)
Cell(m, a) == IF a \in DOMAIN m THEN m[a] ELSE Zero
Read(m, a) == LET w == Cell(m.mem, a) IN
  [m EXCEPT !.acc = Append(@, <<a, w>>),
            !.bad = @ \cup (IF a > MaxAddr THEN {"bounds"} ELSE IF w[2] # 0 \/ w[3] # 0 \/ w[4] # 0 THEN {"project"} ELSE {})]
Val(m, a) == Cell(m.mem, a)[1]
ReadU(m, a) == LET m2 == Read(Read(m, a), AddF(a, 1)) IN
  IF m2.bad = m.bad /\ ~(Val(m, a) \in 0..65535 /\ Val(m, AddF(a, 1)) \in 0..65535) THEN [m2 EXCEPT !.bad = @ \cup {"limb"}] ELSE m2
ValU(m, a) == <<Val(m, a), Val(m, AddF(a, 1))>>
Write(m, a, v) == IF a > MaxAddr THEN [m EXCEPT !.bad = @ \cup {"bounds"}]
                  ELSE [m EXCEPT !.acc = Append(@, <<a, W(v)>>), !.mem = (a :> W(v)) @@ @]
WriteU(m, a, u) == Write(Write(m, a, u[1]), AddF(a, 1), u[2])
Fail(m, t) == [m EXCEPT !.bad = @ \cup {t}]
Flag(b) == IF b THEN 1 ELSE 0
FeltOp(o, x, y) == CASE o \in {"StoreAddFpFp", "StoreAddFpImm"} -> AddF(x, y) [] o = "StoreSubFpFp" -> SubF(x, y)
                     [] o \in {"StoreMulFpFp", "StoreMulFpImm"} -> MulF(x, y) [] o = "StoreDivFpFp" -> DivF(x, y)
                     [] o = "StoreLeFpImm" -> Flag(x <= y)
WordOp(o, x, y) == CASE o \in {"U32StoreAddFpFp", "U32StoreAddFpImm"} -> AddU(x, y) [] o = "U32StoreSubFpFp" -> SubU(x, y)
                     [] o \in {"U32StoreMulFpFp", "U32StoreMulFpImm"} -> MulU(x, y) [] o \in {"U32StoreAndFpFp", "U32StoreAndFpImm"} -> AndU(x, y)
                     [] o \in {"U32StoreOrFpFp", "U32StoreOrFpImm"} -> OrU(x, y) [] o \in {"U32StoreXorFpFp", "U32StoreXorFpImm"} -> XorU(x, y)
WordCmp(o, x, y) == IF o \in {"U32StoreEqFpFp", "U32StoreEqFpImm"} THEN x = y ELSE LtU(x, y)
Felts2 == {"StoreAddFpFp", "StoreSubFpFp", "StoreMulFpFp", "StoreDivFpFp"}
FeltsI == {"StoreAddFpImm", "StoreMulFpImm", "StoreLeFpImm"}
\* what executing instruction o with operands x does: r.pc, r.fp, r.mem, r.acc, r.bad; i: accesses of the fetch
Exec(o, x, p, f, mm, i) ==
  LET m0 == [mem |-> mm, acc |-> i, bad |-> {}]
      At(k) == AddF(f, x[k])
      Next1 == AddF(p, NWords(o))
      Done(m) == [pc |-> Next1, fp |-> f, mem |-> m.mem, acc |-> m.acc, look |-> m.acc, bad |-> m.bad]     \* look: the cells it depends on
      Then(m, g) == IF m.bad = {} THEN Done(g) ELSE Done(m)
  IN CASE o \in Felts2 ->
            LET m == Read(Read(m0, At(1)), At(2)) IN
            IF o = "StoreDivFpFp" /\ m.bad = {} /\ Val(m, At(2)) = 0 THEN Done(Fail(m, "operand"))
            ELSE Then(m, Write(m, At(3), FeltOp(o, Val(m, At(1)), Val(m, At(2)))))
       [] o \in FeltsI -> LET m == Read(m0, At(1)) IN Then(m, Write(m, At(3), FeltOp(o, Val(m, At(1)), x[2])))
       [] o = "AssertEqFpImm" -> LET m == Read(m0, At(1)) IN Then(m, IF Val(m, At(1)) = x[2] THEN m ELSE Fail(m, "assert"))
       [] o = "StoreDoubleDerefFp" ->
            LET m == Read(m0, At(1)) a == AddF(Val(m, At(1)), x[2]) m2 == Read(m, a) IN IF m.bad # {} THEN Done(m) ELSE Then(m2, Write(m2, At(3), Val(m, a)))
       [] o = "StoreDoubleDerefFpFp" ->
            LET m == Read(Read(m0, At(1)), At(2)) a == AddF(Val(m, At(1)), Val(m, At(2))) m2 == Read(m, a) IN
            IF m.bad # {} THEN Done(m) ELSE Then(m2, Write(m2, At(3), Val(m, a)))
       [] o = "StoreToDoubleDerefFpImm" -> LET m == Read(Read(m0, At(1)), At(3)) IN Then(m, Write(m, AddF(Val(m, At(1)), x[2]), Val(m, At(3))))
       [] o = "StoreToDoubleDerefFpFp" ->
            LET m == Read(Read(Read(m0, At(1)), At(2)), At(3)) IN Then(m, Write(m, AddF(Val(m, At(1)), Val(m, At(2))), Val(m, At(3))))
       [] o = "StoreImm" -> Done(Write(m0, At(2), x[1]))
       [] o = "StoreFramePointer" -> Done(Write(m0, At(2), AddF(f, x[1])))
       [] o = "CallAbsImm" -> LET m == Write(Write(m0, At(1), f), AddF(At(1), 1), Next1) IN [Done(m) EXCEPT !.pc = x[2], !.fp = AddF(At(1), 2)]
       [] o = "Ret" -> LET m == Read(Read(m0, SubF(f, 1)), SubF(f, 2)) IN [Done(m) EXCEPT !.pc = Val(m, SubF(f, 1)), !.fp = Val(m, SubF(f, 2))]
       [] o = "JmpAbsImm" -> [Done(m0) EXCEPT !.pc = x[1]]
       [] o = "JmpRelImm" -> [Done(m0) EXCEPT !.pc = AddF(p, x[1])]
       [] o = "JnzFpImm" -> LET m == Read(m0, At(1)) IN IF Val(m, At(1)) # 0 THEN [Done(m) EXCEPT !.pc = AddF(p, x[2])] ELSE Done(m)
       [] o \in {"PrintM31", "PrintU32"} -> LET m == IF o = "PrintM31" THEN Read(m0, At(1)) ELSE ReadU(m0, At(1)) IN [Done(m) EXCEPT !.acc = i]
       [] o = "U32StoreImm" -> IF IsU(<<x[1], x[2]>>) THEN Done(WriteU(m0, At(3), <<x[1], x[2]>>)) ELSE Done(Fail(m0, "limb"))
       [] OTHER ->        \* two 32-bit operands
            LET imm == Arity(o) > 3 /\ Kinds(o)[2] = "l"
                m1 == ReadU(m0, At(1))
                m == IF ~imm THEN ReadU(m1, At(2)) ELSE IF IsU(<<x[2], x[3]>>) THEN m1 ELSE Fail(m1, "limb")
                y == IF imm THEN <<x[2], x[3]>> ELSE ValU(m, At(2))
                d == IF imm THEN 4 ELSE 3
            IN IF m.bad # {} THEN Done(IF y = <<0, 0>> /\ o \in {"U32StoreDivRemFpFp", "U32StoreDivRemFpImm"} THEN Fail(m, "operand") ELSE m)
               ELSE IF o \in {"U32StoreDivRemFpFp", "U32StoreDivRemFpImm"} THEN
                 IF y = <<0, 0>> THEN Done(Fail(m, "operand"))
                 ELSE LET q == DivRemU(ValU(m, At(1)), y) IN Done(WriteU(WriteU(m, At(d), q[1]), At(d + 1), q[2]))
               ELSE IF Kinds(o)[d] = "d" THEN Done(Write(m, At(d), Flag(WordCmp(o, ValU(m, At(1)), y))))
               ELSE Done(WriteU(m, At(d), WordOp(o, ValU(m, At(1)), y)))
\* the instruction at p: its operands are in the cells, whatever else they hold
Fetch(mm, p) ==
  LET w == Cell(mm, p) IN
  IF w[1] \notin Codes THEN [ok |-> FALSE]
  ELSE LET o == OpOf[w[1]] two == NWords(o) = 2 w2 == Cell(mm, AddF(p, 1))
           all == IF two THEN w \o w2 ELSE w
       IN [ok |-> TRUE, o |-> o, x |-> SubSeq(all, 2, 1 + Arity(o)), acc |-> IF two THEN <<<<p, w>>, <<AddF(p, 1), w2>>>> ELSE <<<<p, w>>>>]
(* -------------------------------------------------------------- choosing *)
L == Len(prog)
Vals == Values \cup {fp, SubF(fp, 2), AddF(fp, 1), L, 0, MaxAddr - 1, MaxAddr}
\* addresses instructions are about: mostly around the frame
Addr == LET k == R(1..20) IN IF k <= 15 THEN R({AddF(SubF(fp, 4), j) : j \in 0..11}) ELSE IF k = 16 THEN R(0..(L + 1)) ELSE IF k = 17 THEN R({MaxAddr - 2, MaxAddr - 1, MaxAddr})
                            ELSE IF k = 18 THEN R({MaxAddr + 1, P - 1, 0}) ELSE R({AddF(SubF(fp, 2), 2 * j) : j \in 0..5})
Operand(kd) == CASE kd \in {"a", "u", "d", "e"} -> SubF(TLCEval(Addr), fp)
                 [] kd = "i" -> R(Vals) [] kd = "l" -> IF R(1..12) = 1 THEN R(Vals) ELSE R({0, 0, 1, 2, 3, 7, 255, 256, 32768, 65534, 65535})
                 [] kd = "f" -> R(0..4) [] kd = "t" -> IF R(1..30) = 1 THEN R({1048576, P - 1, 268435455}) ELSE R(0..L)
                 [] kd = "r" -> SubF(TLCEval(IF R(1..3) = 1 THEN R(0..L) ELSE R((pc + 1)..(L + 1)) % (L + 1)), pc)
Draw == CHOOSE c \in {[o |-> o, x |-> TLCEval([j \in 1..Arity(o) |-> Operand(Kinds(o)[j])])] :
                         o \in {IF R(1..3) = 1 THEN R({"StoreImm", "U32StoreImm", "StoreAddFpImm", "JnzFpImm", "CallAbsImm", "Ret", "StoreDivFpFp", "StoreFramePointer"}) ELSE R(Names)}} : TRUE
\* a cell below the program or at the top of memory; writing elsewhere would only cost memory
Cheap(r) == \A j \in 1..Len(r.acc) : LET a == r.acc[j][1] IN a > MaxAddr \/ a < 4096 \/ a > MaxAddr - 4096
Try(c) == Exec(c.o, c.x, pc, fp, mem, <<>>)
Fits(c) == (NWords(c.o) = 2 => pc + 1 < L /\ (pc + 1) \notin touched) /\ Cheap(Try(c))
Pick(ok) == LET good == {c \in ok : Try(c).bad = {}}
                 on == {c \in good : Try(c).pc < L /\ Try(c).pc \notin touched} IN
  IF on # {} /\ R(1..12) # 1 THEN R(on) ELSE IF good # {} /\ R(1..25) # 1 THEN R(good) ELSE IF ok # {} THEN R(ok) ELSE [o |-> "StoreImm", x |-> <<7, 0>>]
Choice == CHOOSE c \in {Pick(ok) : ok \in {{c \in {Draw : k \in 1..1} \cup {Draw : k \in 2..2} \cup {Draw : k \in 3..3} \cup {Draw : k \in 4..4} \cup {Draw : k \in 5..5} : Fits(c)}}} : TRUE
(* ----------------------------------------------------------------- machine *)
NewSeg(m, p, f) == [init |-> m, tr |-> <<<<p, f>>>>, mt |-> <<>>]
Start(words, args, nret, entry, cut) ==
  LET len == Len(words) f0 == len + Len(args) + nret + 2
      m == [a \in 0..(f0 - 1) |-> IF a < len THEN words[a + 1] ELSE IF a < len + Len(args) THEN W(args[a - len + 1])
                                   ELSE IF a = f0 - 2 THEN W(f0) ELSE IF a = f0 - 1 THEN W(len) ELSE Zero]
  IN /\ pc = entry /\ fp = f0 /\ mem = m /\ touched = {} /\ segs = <<>> /\ seg = NewSeg(m, entry, f0)
     /\ run = [args |-> args, nret |-> nret, entry |-> entry, cut |-> cut] /\ status = "run" /\ n = 0
Step ==
  /\ status = "run" /\ pc # L /\ Len(seg.tr) - 1 < run.cut /\ n < MaxExec
  /\ \E fresh \in {Sim /\ pc < L /\ pc \notin touched} : \E c \in {IF fresh THEN Choice ELSE [o |-> "", x |-> <<>>]} :
     LET ws == IF fresh THEN Encode(c.o, c.x) ELSE <<>>
         mm == IF fresh THEN [a \in DOMAIN mem |-> IF a = pc THEN ws[1] ELSE IF a = pc + 1 /\ Len(ws) = 2 THEN ws[2] ELSE mem[a]] ELSE mem
         i == Fetch(mm, pc)
         seen == {pc} \cup (IF i.ok /\ NWords(i.o) = 2 THEN {pc + 1} ELSE {})
     IN /\ prog' = IF fresh THEN [k \in 1..L |-> IF k = pc + 1 THEN [o |-> c.o, x |-> c.x, w |-> ws[1]]
                                                  ELSE IF k = pc + 2 /\ Len(ws) = 2 THEN [o |-> "second", x |-> <<>>, w |-> ws[2]] ELSE prog[k]] ELSE prog
        \* the cells a segment started with are those of the program as it is in the end
        /\ LET fix(m) == IF fresh THEN [a \in DOMAIN m |-> IF a = pc THEN ws[1] ELSE IF a = pc + 1 /\ Len(ws) = 2 THEN ws[2] ELSE m[a]] ELSE m
               sg == [seg EXCEPT !.init = fix(@)]
               old == [k \in 1..Len(segs) |-> [segs[k] EXCEPT !.init = fix(@)]]
               \* nothing past the program and the frames is an instruction
               r == IF pc > 1048575 THEN [bad |-> {"uninit"}] ELSE IF ~i.ok THEN [bad |-> {"opcode"}] ELSE Exec(i.o, i.x, pc, fp, mm, i.acc)
           IN /\ segs' = old
              /\ IF r.bad # {} THEN /\ status' = "error" /\ seg' = sg /\ run' = [bad |-> r.bad, at |-> IF pc <= 1048575 /\ i.ok THEN i.o ELSE "none"] @@ run
                                    /\ touched' = touched \cup seen /\ UNCHANGED <<pc, fp>> /\ mem' = mm
                 ELSE /\ Cheap(r) /\ (r.pc > L + Len(run.args) + run.nret => r.pc > 1048575)     \* (what lies behind the first frame is not looked at as code)
                      /\ pc' = r.pc /\ fp' = r.fp /\ mem' = r.mem /\ status' = "run" /\ run' = run
                      /\ seg' = [sg EXCEPT !.tr = Append(@, <<r.pc, r.fp>>), !.mt = @ \o r.acc]
                      /\ touched' = touched \cup seen \cup {r.look[k][1] : k \in 1..Len(r.look)}
  /\ n' = n + 1
\* a segment that is full ends; the next one starts from the memory and the registers as they are
Cut == /\ status = "run" /\ pc # L /\ Len(seg.tr) - 1 = run.cut /\ n < MaxExec
       /\ segs' = Append(segs, seg) /\ seg' = NewSeg(mem, pc, fp) /\ UNCHANGED <<pc, fp, mem, prog, touched, run, status, n>>
Halt == /\ status = "run" /\ pc = L /\ status' = "done" /\ segs' = Append(segs, seg) /\ UNCHANGED <<pc, fp, mem, prog, touched, run, seg, n>>
Q(S, k) == RandomElement(IF k >= 0 THEN S ELSE {})
RandomWord(k) == IF Q(1..4, k) = 1 THEN <<Q(Values, k), Q(Values, k), 0, Q(Values, k)>> ELSE W(Q(Values, k))
\* one instruction on all values: its operands are at fp, fp + 2 and behind, or overlap
Vec(o, v, w, shape) ==
  LET k == Kinds(o) IN
  [j \in 1..Len(k) |-> CASE k[j] \in {"a", "u"} -> IF j = 1 THEN shape[1] ELSE shape[2] [] k[j] \in {"d", "e"} -> IF j = Len(k) THEN shape[3] ELSE shape[4]
                         [] k[j] = "i" -> w [] k[j] = "l" -> IF j % 2 = 0 THEN w % 65536 ELSE w \div 65536 [] k[j] \in {"t", "r"} -> 1 [] k[j] = "f" -> 5]
Shapes == {<<0, 2, 4, 6>>, <<0, 0, 0, 2>>, <<0, 1, 1, 2>>, <<2, 0, 1, 1>>}
Words(v) == IF v < 0 THEN <<0, 0>> ELSE <<v % 65536, v \div 65536>>
InitAll ==
  \E o \in Names \ {"PrintM31", "PrintU32"}, v \in Values, w \in Values, s \in Shapes :
    LET u == \E j \in 1..Arity(o) : Kinds(o)[j] = "u"
        args == IF u THEN <<v % 65536, v \div 65536, w % 65536, w \div 65536>> ELSE <<v, w, w, v>>
        ws == Encode(o, [j \in 1..Arity(o) |-> LET z == Vec(o, v, w, s)[j] IN IF Kinds(o)[j] \in {"a", "u", "d", "e"} THEN NegF(6 - z) ELSE z])
    IN /\ (Arity(o) < 2 => v = w) /\ (\A j \in 1..Arity(o) : Kinds(o)[j] \in {"t", "r", "f", "i", "d"}) => s = <<0, 2, 4, 6>>
       /\ prog = [k \in 1..Len(ws) |-> IF k = 1 THEN [o |-> o, x |-> [j \in 1..Arity(o) |-> (ws[1] \o (IF Len(ws) = 2 THEN ws[2] ELSE <<>>))[j + 1]], w |-> ws[1]]
                                       ELSE [o |-> "second", x |-> <<>>, w |-> ws[2]]]
       /\ Start([k \in 1..Len(ws) |-> ws[k]], args, 0, 0, 1000)
InitSim == \E len \in {8, 14, 20, 26} :
  /\ prog = [k \in 1..len |-> [o |-> "data", x |-> <<>>, w |-> RandomWord(k)]]
  /\ \E na \in 0..3, nret \in 0..2, cut \in Cuts : \E entry \in {0, len \div 2} :
       Start([k \in 1..len |-> prog[k].w], [j \in 1..na |-> Q(Values, j)], nret, entry, cut)
Init == IF Sim THEN InitSim ELSE InitAll
Next == Step \/ Cut \/ Halt
Spec == Init /\ [][Next]_vars
(* ---------------------------------------------------------- what holds *)
\* every cell holds four field elements, at an address there is
Sound == \A a \in DOMAIN mem : a \in 0..MaxAddr /\ \A k \in 1..4 : mem[a][k] \in 0..(P - 1)
\* the segments are one run: each starts with the registers and the memory the one before ended with
Replay(m, t) == LET RECURSIVE g(_, _) g(mm, j) == IF j > Len(t) THEN mm ELSE g(IF Cell(mm, t[j][1]) = t[j][2] THEN mm ELSE (t[j][1] :> t[j][2]) @@ mm, j + 1) IN g(m, 1)
Same(m1, m2) == \A a \in DOMAIN m1 \cup DOMAIN m2 : Cell(m1, a) = Cell(m2, a)
All == IF status = "done" THEN segs ELSE Append(segs, seg)
Continuous == \A k \in 1..(Len(All) - 1) : /\ All[k].tr[Len(All[k].tr)] = All[k + 1].tr[1] /\ Len(All[k].tr) = run.cut + 1
                                           /\ Same(Replay(All[k].init, All[k].mt), All[k + 1].init)
Final == status # "run"
Lay(m) == LET d == {a \in DOMAIN m : m[a] # Zero} IN [a \in d |-> m[a]]
EmitCase == Final => PrintT("CASE " \o ToJson([prog |-> prog, run |-> run, status |-> status, pc |-> pc, fp |-> fp,
                                               segs |-> [k \in 1..Len(All) |-> [init |-> Lay(All[k].init), tr |-> All[k].tr, mt |-> All[k].mt]],
                                               mem |-> IF status = "done" THEN Lay(mem) ELSE <<>>]))
=============================================================================
