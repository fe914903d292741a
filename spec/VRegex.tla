------------------------------- MODULE VRegex -------------------------------
(***************************************************************************)
(* The regular expressions used by pattern and patternProperties, as syntax *)
(* trees.  Match(r, s, i) is the set of positions at which a match of r     *)
(* that starts at i can end; search asks for a match anywhere.              *)
(*   [k |-> "c", neg |-> 0/1, rs |-> << <<lo,hi>>, ... >>]   character set   *)
(*   [k |-> "cat", a |-> <<r..>>]  [k |-> "alt", a |-> <<r..>>]              *)
(*   [k |-> "rep", r |-> r, lo |-> n, hi |-> m or -1]                        *)
(*   [k |-> "bol"]  [k |-> "eol"]                                           *)
(*   [k |-> "eng", p |-> pattern, h |-> hyp]  decided by the engine of       *)
(*     VEngine instead                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, VEngine

InSet(r, c) ==
  LET hit == \E i \in 1..Len(r.rs) : r.rs[i][1] <= c /\ c <= r.rs[i][2]
  IN IF r.neg = 1 THEN ~hit ELSE hit

RECURSIVE Match(_, _, _), MatchCat(_, _, _, _), MatchRep(_, _, _, _, _)

Match(r, s, i) ==
  CASE r.k = "c"   -> IF i <= Len(s) /\ InSet(r, s[i]) THEN {i + 1} ELSE {}
    [] r.k = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] r.k = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
    [] r.k = "cat" -> MatchCat(r.a, 1, s, {i})
    [] r.k = "alt" -> UNION {Match(r.a[k], s, i) : k \in 1..Len(r.a)}
    [] r.k = "rep" -> MatchRep(r, s, {i}, 0, {})

MatchCat(a, k, s, at) ==
  IF k > Len(a) \/ at = {} THEN at
  ELSE MatchCat(a, k + 1, s, UNION {Match(a[k], s, j) : j \in at})

\* at: positions reached after n iterations; acc: accepted ends so far
MatchRep(r, s, at, n, acc) ==
  LET acc2 == IF n >= r.lo THEN acc \cup at ELSE acc
      nxt  == UNION {Match(r.r, s, j) : j \in at}
      fresh == IF n >= r.lo THEN nxt \ acc2 ELSE nxt
  IN IF fresh = {} \/ (r.hi >= 0 /\ n >= r.hi) THEN acc2
     ELSE MatchRep(r, s, fresh, n + 1, acc2)

Search(r, s) ==
  IF r.k = "eng" THEN EngineSays(r.p, s, r.h)
  ELSE \E i \in 1..(Len(s) + 1) : Match(r, s, i) # {}
=============================================================================
