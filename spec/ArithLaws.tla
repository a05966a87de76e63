----------------------------- MODULE ArithLaws -----------------------------
(* the arithmetic of Arith checked against the laws that define it, over values at all the edges *)
EXTENDS Arith, TLC
VARIABLE x
F == {0, 1, 2, 3, 5, 7, 32767, 32768, 65535, 65536, 1073741823, 1073741824, 1234567890, P - 1, P - 2, P - 65536}
H == {0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535}
U == H \X H
Init == x \in ({"f"} \X F \X F \X F) \cup ({"u"} \X U \X U \X {0})
Next == UNCHANGED x
F3 == LET a == x[2] b == x[3] c == x[4] IN
  /\ AddF(a, b) \in 0..(P - 1) /\ MulF(a, b) \in 0..(P - 1)
  /\ AddF(a, b) = AddF(b, a) /\ MulF(a, b) = MulF(b, a)
  /\ AddF(AddF(a, b), c) = AddF(a, AddF(b, c)) /\ MulF(MulF(a, b), c) = MulF(a, MulF(b, c))
  /\ MulF(a, AddF(b, c)) = AddF(MulF(a, b), MulF(a, c))
  /\ AddF(SubF(a, b), b) = a /\ AddF(a, NegF(a)) = 0 /\ MulF(a, 1) = a
  /\ b # 0 => (InvF(b) \in 1..(P - 1) /\ MulF(InvF(b), b) = 1 /\ MulF(DivF(a, b), b) = a)
  /\ (a < 46340 /\ b < 46340) => MulF(a, b) = (a * b) % P
U2 == LET a == x[2] b == x[3] IN
  /\ IsU(AddU(a, b)) /\ IsU(SubU(a, b)) /\ IsU(MulU(a, b))
  /\ SubU(AddU(a, b), b) = a /\ MulU(a, b) = MulU(b, a) /\ MulU(a, AddU(b, <<1, 0>>)) = AddU(MulU(a, b), a)
  /\ (a[2] < 16384 /\ b[2] < 16384) => LET v == a[2] * L16 + a[1] w == b[2] * L16 + b[1] IN AddU(a, b) = UofN(v + w) /\ (LtU(a, b) <=> v < w)
  /\ b # <<0, 0>> => LET d == DivRemU(a, b) IN IsU(d[1]) /\ IsU(d[2]) /\ LtU(d[2], b) /\ AddU(MulU(d[1], b), d[2]) = a
                       /\ (d[1][2] = 0 \/ b[2] = 0)        \* the product did not wrap
  /\ AddU(AndU(a, b), OrU(a, b)) = AddU(a, b) /\ XorU(a, b) = SubU(OrU(a, b), AndU(a, b))
  /\ FofU(a) = AddF(MulF(a[2], 65536), a[1])
Laws == IF x[1] = "f" THEN F3 ELSE U2
=============================================================================
