------------------------------- MODULE TEngine -------------------------------
(***************************************************************************)
(* Trace validation of validators whose regular expression engine may       *)
(* refuse a pattern or give up on a text (VEngine).  A row is one of TSem,  *)
(* with E2 the environment in which such patterns say the opposite of what  *)
(* they say in E.  A run ended with a verdict ("t" "f") or with the         *)
(* engine's own exception ("e"), never another way:                         *)
(*   - a verdict that was reached without the engine having given up does   *)
(*     not depend on what those patterns would have said;                   *)
(*   - an engine that only gives up on texts is not asked about documents   *)
(*     that contain none.                                                   *)
(***************************************************************************)
EXTENDS TSem

RECURSIVE Texts(_), Refuses(_)
Texts(v) == CASE v.t = "s" -> TRUE
              [] v.t = "a" -> \E k \in 1..Len(v.e) : Texts(v.e[k])
              [] v.t = "o" -> v.m # <<>>
              [] OTHER -> FALSE
Refuses(v) ==
  CASE v.t = "a" -> \E k \in 1..Len(v.e) : Refuses(v.e[k])
    [] v.t = "o" -> \E k \in 1..Len(v.m) :
                      \/ "rx" \in DOMAIN v.m[k] /\ Refused(v.m[k].rx.p)
                      \/ "rx" \in DOMAIN v.m[k].v /\ Refused(v.m[k].v.rx.p)
                      \/ Refuses(v.m[k].v)
    [] OTHER -> FALSE

Says(o, a, b) == o \in {"t", "f"} => a = b /\ o = VText(a)

WhyE(row) ==
  LET ld == Load([row.E EXCEPT !.strict = TRUE])
      nm == Len(row.modes)
      env(e, m) == [e EXCEPT !.strict = row.modes[m][1] = 1, !.sdt = row.modes[m][2] = 1]
      badload == \E k \in 1..Len(row.obs) : row.obs[k].load # (IF ld.ok THEN "ok" ELSE "err")
      badrun == {q \in 1..(Len(row.vals) * nm) :
                   LET v == row.vals[((q - 1) \div nm) + 1]
                       m == ((q - 1) % nm) + 1
                       a == Verdict(v, env(row.E, m)).ok
                       b == Verdict(v, env(row.E2, m)).ok
                       may == IF Texts(v) \/ Refuses(row.E.docs[1].v) THEN {"t", "f", "e"} ELSE {"t", "f"}
                   IN \E k \in 1..Len(row.obs) :
                        LET r == row.obs[k].r[q]
                        IN row.obs[k].load = "ok"
                           /\ ~(r.v \in may /\ r.w \in may /\ Says(r.v, a, b) /\ Says(r.w, a, b))}
  IN IF badload THEN <<"load", ld.ok>>
     ELSE IF ld.ok /\ badrun # {} THEN <<"run", badrun>>
     ELSE <<>>

CheckE == LET w == WhyE(Rows[i]) IN w = <<>> \/ PrintT(<<"REJECT", Rows[i].id, ToString(w)>>)
=============================================================================
