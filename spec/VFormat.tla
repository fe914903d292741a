------------------------------- MODULE VFormat ------------------------------
(***************************************************************************)
(* The formats date, time, date-time and ipv4 over code point sequences.    *)
(***************************************************************************)
EXTENDS VStr

\* s[a..a+n-1] are digits and inside s
HasDigits(s, a, n) == a + n - 1 <= Len(s) /\ DigitsIn(s, a, a + n - 1)
IsAt(s, a, c) == a <= Len(s) /\ s[a] = c

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)

DaysIn(m, leap) ==
  IF m = 2 THEN (IF leap THEN 29 ELSE 28)
  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* full-date of RFC 3339 at the start of s: yyyy-mm-dd, a real calendar day
IsDatePrefix(s) ==
  /\ HasDigits(s, 1, 4) /\ IsAt(s, 5, 45) /\ HasDigits(s, 6, 2)
  /\ IsAt(s, 8, 45) /\ HasDigits(s, 9, 2)
  /\ LET m == Num2(s, 6)
         d == Num2(s, 9)
     IN m \in 1..12 /\ d >= 1 /\ d <= DaysIn(m, Leap(DecVal(s, 1, 4, 0)))

IsDate(s) == Len(s) = 10 /\ IsDatePrefix(s)

\* is s[a..] a time?  strict: the offset is mandatory
IsTimeFrom(s, a, strict) ==
  /\ HasDigits(s, a, 2) /\ IsAt(s, a + 2, 58) /\ HasDigits(s, a + 3, 2)
  /\ IsAt(s, a + 5, 58) /\ HasDigits(s, a + 6, 2)
  /\ LET h  == Num2(s, a)
         mi == Num2(s, a + 3)
         se == Num2(s, a + 6)
         fr == IsAt(s, a + 8, 46)
         z  == IF fr THEN RunEnd(s, a + 9) ELSE a + 8   \* start of the offset
         n  == Len(s)
         noOff == z = n + 1
         zulu  == z = n /\ s[z] \in {90, 122}
         numOff == /\ z + 5 = n /\ s[z] \in {43, 45}
                   /\ HasDigits(s, z + 1, 2) /\ s[z + 3] = 58 /\ HasDigits(s, z + 4, 2)
                   /\ Num2(s, z + 1) <= 23 /\ Num2(s, z + 4) <= 59
         off == IF numOff THEN (IF s[z] = 45 THEN -1 ELSE 1)
                               * (Num2(s, z + 1) * 60 + Num2(s, z + 4))
                ELSE 0
         utc == (h * 60 + mi - off + 2880) % 1440
     IN /\ h <= 23 /\ mi <= 59 /\ se <= 60
        /\ (fr => z > a + 9)
        /\ (zulu \/ numOff \/ (noOff /\ ~strict))
        /\ (se = 60 => utc = 1439)

IsTime(s, strict) == IsTimeFrom(s, 1, strict)

IsDateTime(s, strict) ==
  IsDatePrefix(s) /\ Len(s) >= 11 /\ s[11] \in {84, 116} /\ IsTimeFrom(s, 12, strict)

(* ipv4: four decimal octets; up to three digits, at most 255 *)
Octet(s, a, b) == b - a \in 0..2 /\ DigitsIn(s, a, b) /\ DecVal(s, a, b, 0) <= 255

IsIpv4(s) ==
  LET d1 == IndexFrom(s, 46, 1)
      d2 == IF d1 = 0 THEN 0 ELSE IndexFrom(s, 46, d1 + 1)
      d3 == IF d2 = 0 THEN 0 ELSE IndexFrom(s, 46, d2 + 1)
  IN /\ d3 # 0
     /\ Octet(s, 1, d1 - 1) /\ Octet(s, d1 + 1, d2 - 1)
     /\ Octet(s, d2 + 1, d3 - 1) /\ Octet(s, d3 + 1, Len(s))

FormatOk(f, s, strict) ==
  CASE f = "date"      -> IsDate(s)
    [] f = "time"      -> IsTime(s, strict)
    [] f = "date-time" -> IsDateTime(s, strict)
    [] f = "ipv4"      -> IsIpv4(s)
    [] OTHER           -> TRUE
=============================================================================
