-------------------------------- MODULE TSem --------------------------------
(***************************************************************************)
(* Trace validation of loading and validating.  A row records, for one      *)
(* schema with its remote documents, some documents and some modes, what    *)
(* the library did (each distinct observation once):                        *)
(*   E     the environment of VRef/VSchema (strict, sdt filled in per mode) *)
(*   vals  the documents    modes  << <<strict, sdt>> .. >>                  *)
(*   asp   the aspects to compare: "load" "verdict" "errs" "count" "fetch"  *)
(*   obs   << [load, fet, r] >> with r[(d-1)*Len(modes)+m] =                *)
(*         [v |-> verdict without results, w |-> verdict with results,      *)
(*          n |-> error count, e |-> << [p, x] .. >>]                       *)
(***************************************************************************)
EXTENDS VParse, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Rows)
Lanes == 64

VARIABLE i
Init == i \in 1..(IF N < Lanes THEN N ELSE Lanes)
Next == i + Lanes <= N /\ i' = i + Lanes

\* equal as multisets of (pointer, context)
SameErrs(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A k \in 1..Len(a) :
       Cardinality({j \in 1..Len(a) : a[j].p = a[k].p /\ a[j].x = a[k].x})
       = Cardinality({j \in 1..Len(b) : b[j].p = a[k].p /\ b[j].x = a[k].x})

Asks(row, a) == \E k \in 1..Len(row.asp) : row.asp[k] = a

\* no document is fetched twice; every one that is needed is fetched, except
\* that the main document need not be when it is referred to by its identifier
FetchOk(o, ld, E) ==
  LET got == {o.fet[k] : k \in 1..Len(o.fet)}
      root == E.docs[1].v
      own == IF HasId(root, E) THEN {NoFrag(IdText(root, E))} ELSE {}
  IN /\ Cardinality(got) = Len(o.fet)
     /\ got \subseteq ld.fet
     /\ ld.ok => ld.fet \ own \subseteq got

VText(b) == IF b THEN "t" ELSE "f"

RunOk(row, x, r) ==
  /\ Asks(row, "verdict") => r.v = VText(x.ok) /\ r.w = VText(x.ok)
  /\ Asks(row, "agree") => r.v \in {"t", "f"} /\ r.w = r.v /\ (r.n = 0 <=> r.v = "t")
  /\ Asks(row, "count") => r.n = Len(x.er)
  /\ Asks(row, "errs") => (x.ok = (r.w = "t")) /\ SameErrs(x.er, r.e)

Why(row) ==
  LET E0 == row.E
      ld == Load([E0 EXCEPT !.strict = TRUE])
      nm == Len(row.modes)
      badload == \E k \in 1..Len(row.obs) :
                   \/ Asks(row, "load") /\ row.obs[k].load # (IF ld.ok THEN "ok" ELSE "err")
                   \/ Asks(row, "noload") /\ row.obs[k].load \notin {"ok", "err"}
                   \/ Asks(row, "fetch") /\ ~FetchOk(row.obs[k], ld, E0)
      badrun == {q \in 1..(Len(row.vals) * nm) :
                   LET d == ((q - 1) \div nm) + 1
                       m == ((q - 1) % nm) + 1
                       x == Verdict(row.vals[d], [E0 EXCEPT !.strict = row.modes[m][1] = 1,
                                                            !.sdt = row.modes[m][2] = 1])
                   IN \E k \in 1..Len(row.obs) :
                        row.obs[k].load = "ok" /\ ~RunOk(row, x, row.obs[k].r[q])}
      needrun == Asks(row, "verdict") \/ Asks(row, "errs") \/ Asks(row, "count") \/ Asks(row, "agree")
  IN IF badload THEN <<"load", ld.ok>>
     ELSE IF ld.ok /\ needrun /\ badrun # {} THEN <<"run", badrun>>
     ELSE <<>>

Check == LET w == Why(Rows[i]) IN w = <<>> \/ PrintT(<<"REJECT", Rows[i].id, ToString(w)>>)
=============================================================================
