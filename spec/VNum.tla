-------------------------------- MODULE VNum --------------------------------
(***************************************************************************)
(* Exact decimal numbers.  TLC integers are 32 bit, so a JSON number is     *)
(* kept as  (-1)^ng * 0.d1 d2 .. dn * 10^ex  with d1 # 0 and dn # 0; zero   *)
(* is [ng |-> 0, dg |-> <<>>, ex |-> 0].  Comparison and remainder are done *)
(* digit by digit, so no arithmetic ever leaves the small integers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

NZero == [ng |-> 0, dg |-> <<>>, ex |-> 0]

\* digit of weight 10^(-k) of the fraction 0.d1d2..., k >= 1
DigitAt(x, k) == IF k >= 1 /\ k <= Len(x.dg) THEN x.dg[k] ELSE 0

RECURSIVE CmpDigits(_, _, _, _)
CmpDigits(a, b, k, n) ==
  IF k > n THEN 0
  ELSE LET x == IF k <= Len(a) THEN a[k] ELSE 0
           y == IF k <= Len(b) THEN b[k] ELSE 0
       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpDigits(a, b, k + 1, n)

\* magnitudes of two non-zero numbers
CmpMag(a, b) ==
  IF a.ex < b.ex THEN -1
  ELSE IF a.ex > b.ex THEN 1
  ELSE CmpDigits(a.dg, b.dg, 1, MaxI(Len(a.dg), Len(b.dg)))

IsZero(a) == a.dg = <<>>

\* three-way comparison of two numbers
NCmp(a, b) ==
  IF IsZero(a) /\ IsZero(b) THEN 0
  ELSE IF IsZero(a) THEN (IF b.ng = 1 THEN 1 ELSE -1)
  ELSE IF IsZero(b) THEN (IF a.ng = 1 THEN -1 ELSE 1)
  ELSE IF a.ng # b.ng THEN (IF a.ng = 1 THEN -1 ELSE 1)
  ELSE IF a.ng = 0 THEN CmpMag(a, b) ELSE CmpMag(b, a)

NEq(a, b) == NCmp(a, b) = 0
NLess(a, b) == NCmp(a, b) < 0

\* is the value a mathematical integer?
NIntegral(a) == IsZero(a) \/ a.ex >= Len(a.dg)

\* 2^63 = 9223372036854775808
TwoP63 == [ng |-> 0, ex |-> 19,
           dg |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>]
MinusTwoP63 == [TwoP63 EXCEPT !.ng = 1]

\* inside the signed 64-bit range
NInt64(a) == NCmp(a, MinusTwoP63) >= 0 /\ NCmp(a, TwoP63) < 0

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

\* value of a small non-negative integral number given as digits
RECURSIVE SmallDigits(_, _, _)
SmallDigits(dg, k, acc) ==
  IF k > Len(dg) THEN acc ELSE SmallDigits(dg, k + 1, acc * 10 + dg[k])

\* |a| scaled by 10^s as a machine integer (caller guarantees it is integral
\* and small)
ScaledMag(a, s) ==
  IF IsZero(a) THEN 0
  ELSE SmallDigits(a.dg, 1, 0) * Pow10(a.ex - Len(a.dg) + s)

\* remainder of the digit string dg followed by z zeros, modulo m
RECURSIVE RemDigits(_, _, _, _, _)
RemDigits(dg, k, z, m, r) ==
  IF k <= Len(dg) THEN RemDigits(dg, k + 1, z, m, (r * 10 + dg[k]) % m)
  ELSE IF z > 0 THEN RemDigits(dg, k, z - 1, m, (r * 10) % m)
  ELSE r

\* is a an integral multiple of b (b # 0, at most eight digits)?  The last
\* digit of a is not zero, so a is no multiple of a coarser power of ten.
NMultiple(a, b) ==
  IF IsZero(a) THEN TRUE
  ELSE LET ea == a.ex - Len(a.dg)       \* a = digits(a) * 10^ea
           eb == b.ex - Len(b.dg)
       IN ea >= eb /\ RemDigits(a.dg, 1, ea - eb, SmallDigits(b.dg, 1, 0), 0) = 0
=============================================================================
