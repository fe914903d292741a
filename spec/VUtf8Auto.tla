------------------------------ MODULE VUtf8Auto -----------------------------
(***************************************************************************)
(* Counting characters as a state machine that reads one byte at a time:    *)
(* need is the number of continuation bytes the open character still wants, *)
(* first the lead byte when the next byte is the second one (else 0).       *)
(* Explored over one representative of every class of bytes that table 3-7  *)
(* tells apart.                                                              *)
(***************************************************************************)
EXTENDS VUtf8, FiniteSets
CONSTANT MaxLen

Classes == {65, 133, 149, 165, 193, 197, 224, 229, 237, 240, 242, 244, 246, 250}

VARIABLES s, need, first, count, good
vars == <<s, need, first, count, good>>
Init == s = <<>> /\ need = 0 /\ first = 0 /\ count = 0 /\ good = TRUE

Read(b) ==
  /\ s' = Append(s, b)
  /\ IF need > 0 /\ (IF first > 0 THEN SecondOk(first, b) ELSE Cont(b))
     THEN need' = need - 1 /\ first' = 0 /\ UNCHANGED <<count, good>>
     ELSE /\ good' = (good /\ need = 0 /\ SeqLen(b) > 0)
          /\ count' = count + 1
          /\ need' = (IF SeqLen(b) = 0 THEN 0 ELSE SeqLen(b) - 1)
          /\ first' = (IF SeqLen(b) > 1 THEN b ELSE 0)
Next == Len(s) < MaxLen /\ \E b \in Classes : Read(b)
Spec == Init /\ [][Next]_vars

WholeWell == good /\ need = 0
\* the machine's idea of well-formed and of the count is the declarative one
Agrees == /\ WholeWell = WellFormed(s)
          /\ (WholeWell => count = CountFrom(s, 1))
Within == Utf8Bounds(s).lo <= Utf8Bounds(s).hi /\ (count >= Utf8Bounds(s).lo /\ count <= Utf8Bounds(s).hi)
\* a well-formed character after any prefix adds one to both bounds of a well-formed string
AppendOne == \A c \in {<<65>>, <<197, 133>>, <<224, 165, 133>>, <<242, 149, 133, 165>>} :
               WellFormed(s) => Utf8Bounds(s \o c).lo = Utf8Bounds(s).lo + 1
=============================================================================
