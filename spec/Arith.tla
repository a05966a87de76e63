------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* The two kinds of number of the machine, with operations that stay below *)
(* 2^31 (TLC's integers end there): elements of the prime field of order   *)
(* P = 2^31 - 1, and 32-bit words as pairs <<low, high>> of 16-bit limbs.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise
P == 2147483647
AddF(a, b) == IF a >= P - b THEN a - (P - b) ELSE a + b
NegF(a) == IF a = 0 THEN 0 ELSE P - a
SubF(a, b) == IF a >= b THEN a - b ELSE P - (b - a)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608,
          16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Two(k) == Pow2[k + 1]
\* 2^31 = 1 in the field: multiplying by 2^k rotates the 31 bits
Rot(x, k) == IF k = 0 THEN x ELSE (x % Two(31 - k)) * Two(k) + x \div Two(31 - k)
MulF(a, b) ==
  LET a0 == a % 32768 a1 == (a \div 32768) % 32768 a2 == a \div 1073741824
      b0 == b % 32768 b1 == (b \div 32768) % 32768 b2 == b \div 1073741824
      m0 == a0 * b0
      m1 == a0 * b1 + a1 * b0
      m2 == AddF(AddF(a1 * b1, a2 * b0), a0 * b2)
      m3 == a2 * b1 + a1 * b2
      m4 == a2 * b2
  IN AddF(AddF(AddF(AddF(m0, Rot(m1 % P, 15)), Rot(m2, 30)), Rot(m3, 14)), Rot(m4, 29))
\* the inverse by the extended Euclidean algorithm; the coefficients stay below P in absolute value
RECURSIVE Bezout(_, _, _, _)
Bezout(r0, r1, t0, t1) == IF r1 = 0 THEN t0 ELSE Bezout(r1, r0 % r1, t1, t0 - (r0 \div r1) * t1)
InvF(a) == LET t == Bezout(P, a, 0, 1) IN IF t < 0 THEN t + P ELSE t
DivF(a, b) == MulF(a, InvF(b))
\* ------------------------------------------------------------- 32-bit words
L16 == 65536
IsU(u) == u[1] \in 0..65535 /\ u[2] \in 0..65535
AddU(a, b) == LET lo == a[1] + b[1] IN <<lo % L16, (a[2] + b[2] + lo \div L16) % L16>>
SubU(a, b) == LET lo == a[1] - b[1] bw == IF lo < 0 THEN 1 ELSE 0 hi == a[2] - b[2] - bw IN <<lo + bw * L16, IF hi < 0 THEN hi + L16 ELSE hi>>
\* 16 x 16 -> 32 bits
Mul16(x, y) == LET p0 == x * (y % 256) p1 == x * (y \div 256) s == p0 + (p1 % 256) * 256 IN <<s % L16, s \div L16 + p1 \div 256>>
MulU(a, b) == LET m == Mul16(a[1], b[1]) IN <<m[1], (m[2] + Mul16(a[1], b[2])[1] + Mul16(a[2], b[1])[1]) % L16>>
LtU(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Bit(a, i) == IF i < 16 THEN (a[1] \div Two(i)) % 2 ELSE (a[2] \div Two(i - 16)) % 2
\* long division, from the highest bit down; the rest may need 33 bits before the subtraction
Sub33(a, b) == LET lo == a[1] - b[1] bw == IF lo < 0 THEN 1 ELSE 0 IN <<lo + bw * L16, a[2] - b[2] - bw>>
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET d == r[1] * 2 + Bit(a, i) s == <<d % L16, r[2] * 2 + d \div L16>>
           ge == ~LtU(s, b)
           q2 == IF ~ge THEN q ELSE IF i < 16 THEN <<q[1] + Two(i), q[2]>> ELSE <<q[1], q[2] + Two(i - 16)>>
       IN DivStep(a, b, i - 1, q2, IF ge THEN Sub33(s, b) ELSE s)
DivRemU(a, b) == DivStep(a, b, 31, <<0, 0>>, <<0, 0>>)
AndU(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrU(a, b) == <<a[1] | b[1], a[2] | b[2]>>
XorU(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
\* the field element of a word, of a natural number below 2^31
FofU(u) == LET lo == u[1] hi == u[2] IN AddF(Rot(hi, 16), lo)
UofN(n) == <<n % L16, n \div L16>>
=============================================================================
