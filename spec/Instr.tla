-------------------------------- MODULE Instr --------------------------------
(* The instructions of the machine: their numbers, operands and words.       *)
EXTENDS Arith, TLC
(* ------------------------------------------------------------ instructions
   operands: a felt read at fp + it, u 32-bit word read there, d felt written there, e 32-bit word written there,
   i number, l 16-bit limb of a number, t address, r distance, f distance to the next frame *)
Ops == [StoreAddFpFp |-> <<0, "aad">>, StoreSubFpFp |-> <<1, "aad">>, StoreMulFpFp |-> <<2, "aad">>, StoreDivFpFp |-> <<3, "aad">>,
        StoreAddFpImm |-> <<4, "aid">>, StoreMulFpImm |-> <<6, "aid">>, StoreLeFpImm |-> <<48, "aid">>, AssertEqFpImm |-> <<50, "ai">>,
        StoreDoubleDerefFp |-> <<8, "aid">>, StoreDoubleDerefFpFp |-> <<42, "aad">>, StoreImm |-> <<9, "id">>, StoreFramePointer |-> <<43, "id">>,
        CallAbsImm |-> <<10, "ft">>, Ret |-> <<11, "">>, JmpAbsImm |-> <<12, "t">>, JmpRelImm |-> <<13, "r">>, JnzFpImm |-> <<14, "ar">>,
        U32StoreAddFpFp |-> <<15, "uue">>, U32StoreSubFpFp |-> <<16, "uue">>, U32StoreMulFpFp |-> <<17, "uue">>, U32StoreDivRemFpFp |-> <<18, "uuee">>,
        U32StoreAddFpImm |-> <<19, "ulle">>, U32StoreMulFpImm |-> <<21, "ulle">>, U32StoreDivRemFpImm |-> <<22, "ullee">>, U32StoreImm |-> <<23, "lle">>,
        U32StoreEqFpFp |-> <<24, "uud">>, U32StoreLtFpFp |-> <<28, "uud">>, U32StoreEqFpImm |-> <<30, "ulld">>, U32StoreLtFpImm |-> <<34, "ulld">>,
        U32StoreAndFpFp |-> <<36, "uue">>, U32StoreOrFpFp |-> <<37, "uue">>, U32StoreXorFpFp |-> <<38, "uue">>,
        U32StoreAndFpImm |-> <<39, "ulle">>, U32StoreOrFpImm |-> <<40, "ulle">>, U32StoreXorFpImm |-> <<41, "ulle">>,
        StoreToDoubleDerefFpImm |-> <<44, "aia">>, StoreToDoubleDerefFpFp |-> <<45, "aaa">>, PrintM31 |-> <<46, "a">>, PrintU32 |-> <<47, "u">>]
Names == DOMAIN Ops
Code(o) == Ops[o][1]
\* the kinds of the operands as a sequence (TLC cannot take strings apart)
KindsOf == "aad" :> <<"a", "a", "d">> @@ "aid" :> <<"a", "i", "d">> @@ "ai" :> <<"a", "i">> @@ "id" :> <<"i", "d">> @@ "ft" :> <<"f", "t">> @@ "" :> <<>> @@ "t" :> <<"t">>
           @@ "r" :> <<"r">> @@ "ar" :> <<"a", "r">> @@ "uue" :> <<"u", "u", "e">> @@ "uuee" :> <<"u", "u", "e", "e">> @@ "ulle" :> <<"u", "l", "l", "e">>
           @@ "ullee" :> <<"u", "l", "l", "e", "e">> @@ "lle" :> <<"l", "l", "e">> @@ "uud" :> <<"u", "u", "d">> @@ "ulld" :> <<"u", "l", "l", "d">>
           @@ "aia" :> <<"a", "i", "a">> @@ "aaa" :> <<"a", "a", "a">> @@ "a" :> <<"a">> @@ "u" :> <<"u">>
Kinds(o) == KindsOf[Ops[o][2]]
Arity(o) == Len(Kinds(o))
NWords(o) == IF Arity(o) > 3 THEN 2 ELSE 1
Codes == {Code(o) : o \in Names}
OpOf == [c \in Codes |-> CHOOSE o \in Names : Code(o) = c]
Pad(s) == s \o SubSeq(<<0, 0, 0, 0, 0, 0, 0, 0>>, 1, 8 - Len(s))
\* the memory words of an instruction
Encode(o, x) == LET p == Pad(<<Code(o)>> \o x) IN IF NWords(o) = 1 THEN <<SubSeq(p, 1, 4)>> ELSE <<SubSeq(p, 1, 4), SubSeq(p, 5, 8)>>
\* cells of memory the operands and the frame make an instruction touch
OperandCells(k) == CASE k \in {"a", "d"} -> 1 [] k \in {"u", "e"} -> 2 [] OTHER -> 0
RECURSIVE CellsOf(_)
CellsOf(ks) == IF ks = <<>> THEN 0 ELSE OperandCells(ks[1]) + CellsOf(Tail(ks))
Accesses(o) == CellsOf(Kinds(o)) + (IF o \in {"CallAbsImm", "Ret"} THEN 2
                                    ELSE IF o \in {"StoreDoubleDerefFp", "StoreDoubleDerefFpFp", "StoreToDoubleDerefFpImm", "StoreToDoubleDerefFpFp"} THEN 1 ELSE 0)
=============================================================================
