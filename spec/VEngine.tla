------------------------------- MODULE VEngine -------------------------------
(***************************************************************************)
(* A regular expression engine that a user brings along (ValidatorT<E>), as *)
(* an oracle of its own: nothing it says follows from what ECMAScript would *)
(* say about the same pattern.  A pattern is its code points; the first one *)
(* says what is asked of the text:                                          *)
(*   =w the text is w    <w it begins with w    >w it ends with w           *)
(*   ~w it contains w    @w it consists of code points of w                 *)
(*   !w the engine refuses the pattern    ?w it gives up on every text      *)
(*   anything else: the text contains the pattern                           *)
(* A refusal is an exception; the value a pattern would have had where the  *)
(* engine never got to say it is the parameter hyp.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

EqualTo(s, w) == s = w
Begins(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
Ends(s, w) == Len(s) >= Len(w) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
Holds(s, w) == \E i \in 0..(Len(s) - Len(w)) : SubSeq(s, i + 1, i + Len(w)) = w
MadeOf(s, w) == \A i \in 1..Len(s) : \E j \in 1..Len(w) : s[i] = w[j]

Refused(p) == p # <<>> /\ p[1] = 33
GivesUp(p) == p # <<>> /\ p[1] = 63
Throws(p) == Refused(p) \/ GivesUp(p)

EngineSays(p, s, hyp) ==
  IF p = <<>> THEN TRUE
  ELSE LET w == Tail(p)
       IN CASE p[1] = 61 -> EqualTo(s, w)
            [] p[1] = 60 -> Begins(s, w)
            [] p[1] = 62 -> Ends(s, w)
            [] p[1] = 126 -> Holds(s, w)
            [] p[1] = 64 -> MadeOf(s, w)
            [] Throws(p) -> hyp
            [] OTHER -> Holds(s, p)
=============================================================================
