-------------------------------- MODULE VUtf8 -------------------------------
(***************************************************************************)
(* How many characters a byte string has.  A well-formed string (Unicode    *)
(* table 3-7) has one per code point.  For other byte strings the count is   *)
(* only bounded: every byte that is not a continuation byte starts a         *)
(* character, a well-formed character counts once after any prefix, and      *)
(* there are never more characters than bytes.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

InR(b, lo, hi) == b >= lo /\ b <= hi
Cont(b) == InR(b, 128, 191)

\* number of bytes of a well-formed sequence that starts with b (0: none)
SeqLen(b) == IF b < 128 THEN 1
             ELSE IF InR(b, 194, 223) THEN 2
             ELSE IF InR(b, 224, 239) THEN 3
             ELSE IF InR(b, 240, 244) THEN 4 ELSE 0
\* range of the second byte
SecondOk(b, c) == CASE b = 224 -> InR(c, 160, 191)
                    [] b = 237 -> InR(c, 128, 159)
                    [] b = 240 -> InR(c, 144, 191)
                    [] b = 244 -> InR(c, 128, 143)
                    [] OTHER -> Cont(c)

\* is there a well-formed character at k?
CharAt(s, k) ==
  LET n == SeqLen(s[k])
  IN /\ n > 0
     /\ k + n - 1 <= Len(s)
     /\ (n >= 2 => SecondOk(s[k], s[k + 1]))
     /\ (n >= 3 => Cont(s[k + 2]))
     /\ (n >= 4 => Cont(s[k + 3]))

RECURSIVE WellFrom(_, _), CountFrom(_, _), StartsFrom(_, _)
WellFrom(s, k) == IF k > Len(s) THEN TRUE ELSE CharAt(s, k) /\ WellFrom(s, k + SeqLen(s[k]))
WellFormed(s) == WellFrom(s, 1)
CountFrom(s, k) == IF k > Len(s) THEN 0 ELSE 1 + CountFrom(s, k + SeqLen(s[k]))
StartsFrom(s, k) == IF k > Len(s) THEN 0
                    ELSE (IF Cont(s[k]) THEN 0 ELSE 1) + StartsFrom(s, k + 1)

Utf8Bounds(s) ==
  IF WellFormed(s) THEN [lo |-> CountFrom(s, 1), hi |-> CountFrom(s, 1)]
  ELSE LET st == StartsFrom(s, 1)
       IN [lo |-> IF s # <<>> /\ st = 0 THEN 1 ELSE st, hi |-> Len(s)]
=============================================================================
