-------------------------------- MODULE VStr --------------------------------
(***************************************************************************)
(* Strings as sequences of code points (or bytes), decimal literals, JSON   *)
(* Pointer escaping and UTF-8.                                              *)
(***************************************************************************)
EXTENDS VNum, FiniteSets

IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c)   == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)  == IF IsDigit(c) THEN c - 48
              ELSE IF c <= 70 THEN c - 55 ELSE c - 87

RECURSIVE Flat(_, _)
Flat(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o Flat(ss, k + 1)
\* concatenation of a sequence of sequences
Concat(ss) == Flat(ss, 1)

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>>
                ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
\* decimal text of an integer, as code points
IntText(n) == IF n < 0 THEN <<45>> \o NatDigits(0 - n) ELSE NatDigits(n)

RECURSIVE AllFrom(_, _, _)
AllFrom(s, k, n) == IF k > n THEN TRUE ELSE IsDigit(s[k]) /\ AllFrom(s, k + 1, n)
\* s[a..b] are digits (vacuously true if b < a)
DigitsIn(s, a, b) == AllFrom(s, a, b)

Num2(s, a) == (s[a] - 48) * 10 + (s[a + 1] - 48)

RECURSIVE DecVal(_, _, _, _)
DecVal(s, a, b, acc) == IF a > b THEN acc ELSE DecVal(s, a + 1, b, acc * 10 + (s[a] - 48))

\* first index >= k of c in s, or 0
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, k) == IF k > Len(s) THEN 0 ELSE IF s[k] = c THEN k ELSE IndexFrom(s, c, k + 1)

RECURSIVE LastIndex(_, _, _)
LastIndex(s, c, k) == IF k = 0 THEN 0 ELSE IF s[k] = c THEN k ELSE LastIndex(s, c, k - 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

(* ---- decimal literals inside strings (weak typing) ---- *)

\* end of the run of digits starting at k (index just past it)
RECURSIVE RunEnd(_, _)
RunEnd(s, k) == IF k <= Len(s) /\ IsDigit(s[k]) THEN RunEnd(s, k + 1) ELSE k

\* remove leading zeros of a digit sequence / trailing zeros
RECURSIVE LeadZ(_, _)
LeadZ(d, k) == IF k <= Len(d) /\ d[k] = 0 THEN LeadZ(d, k + 1) ELSE k - 1
RECURSIVE StripTrail(_)
StripTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripTrail(Take(d, Len(d) - 1)) ELSE d

\* number from integer digits ip, fraction digits fp, exponent e
MkNum(ng, ip, fp, e) ==
  LET all == ip \o fp
      lz  == LeadZ(all, 1)
      dg  == StripTrail(Drop(all, lz))
  IN IF dg = <<>> THEN NZero
     ELSE [ng |-> ng, dg |-> dg, ex |-> Len(ip) - lz + e]

Digs(s, a, b) == [k \in 1..MaxI(0, b - a + 1) |-> s[a + k - 1] - 48]

\* a literal  [-]digits[.digits][(e|E)[+-]digits], also ".5" and "1."
ParseDec(s) ==
  LET n   == Len(s)
      ng  == IF n > 0 /\ s[1] = 45 THEN 1 ELSE 0
      i0  == 1 + ng
      i1  == RunEnd(s, i0)                         \* after integer digits
      dot == i1 <= n /\ s[i1] = 46
      f0  == IF dot THEN i1 + 1 ELSE i1
      f1  == IF dot THEN RunEnd(s, f0) ELSE i1     \* after fraction digits
      some == (i1 - i0) + (f1 - f0) > 0
      exq == f1 <= n /\ (s[f1] = 101 \/ s[f1] = 69)
      sg  == exq /\ f1 + 1 <= n /\ (s[f1 + 1] = 43 \/ s[f1 + 1] = 45)
      e0  == IF exq THEN (IF sg THEN f1 + 2 ELSE f1 + 1) ELSE f1
      e1  == IF exq THEN RunEnd(s, e0) ELSE f1
      ev  == IF exq /\ e1 > e0 THEN DecVal(s, e0, e1 - 1, 0) ELSE 0
      es  == IF sg /\ s[f1 + 1] = 45 THEN 0 - ev ELSE ev
      ok  == some /\ e1 = n + 1 /\ (exq => e1 > e0)
  IN IF ok THEN [ok |-> TRUE, v |-> MkNum(ng, Digs(s, i0, i1 - 1), Digs(s, f0, f1 - 1), es)]
     ELSE [ok |-> FALSE, v |-> NZero]

\* an integer literal [-]digits
ParseIntLit(s) ==
  LET n  == Len(s)
      ng == IF n > 0 /\ s[1] = 45 THEN 1 ELSE 0
  IN IF n > ng /\ DigitsIn(s, 1 + ng, n)
     THEN LET v == MkNum(ng, Digs(s, 1 + ng, n), <<>>, 0) IN [ok |-> NInt64(v), v |-> v]
     ELSE [ok |-> FALSE, v |-> NZero]

\* integer text of an integral number
IntegralText(x) ==
  IF IsZero(x) THEN <<48>>
  ELSE (IF x.ng = 1 THEN <<45>> ELSE <<>>)
       \o [k \in 1..x.ex |-> 48 + DigitAt(x, k)]

\* "%f" text of a number with at most six fraction digits
FixedText(x) ==
  LET ip == IF IsZero(x) \/ x.ex <= 0 THEN <<48>> ELSE [k \in 1..x.ex |-> 48 + DigitAt(x, k)]
      fp == [k \in 1..6 |-> 48 + (IF IsZero(x) THEN 0 ELSE DigitAt(x, x.ex + k))]
  IN (IF x.ng = 1 THEN <<45>> ELSE <<>>) \o ip \o <<46>> \o fp

(* ---- JSON Pointer text ---- *)
RECURSIVE EscFrom(_, _)
EscFrom(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE (IF s[k] = 126 THEN <<126, 48>>          \* ~ -> ~0
        ELSE IF s[k] = 47 THEN <<126, 49>>      \* / -> ~1
        ELSE <<s[k]>>) \o EscFrom(s, k + 1)
EscapeToken(s) == EscFrom(s, 1)

(* ---- UTF-8 ---- *)
Utf8Enc(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Utf8From(_, _)
Utf8From(s, k) == IF k > Len(s) THEN <<>> ELSE Utf8Enc(s[k]) \o Utf8From(s, k + 1)
ToUtf8(s) == Utf8From(s, 1)
=============================================================================
