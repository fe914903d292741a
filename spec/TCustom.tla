------------------------------ MODULE TCustom -------------------------------
(***************************************************************************)
(* Trace validation of custom keywords: what TSem checks, and the calls of  *)
(* the builders.  obs[k].built is << <<keyword, number>> .. >>, the number  *)
(* -1 for a value that is none (the builder raises then).  A schema that is  *)
(* both used in place and referred to may be built once for each way it is  *)
(* reached (row.refs counts the references); otherwise it is built once.    *)
(* Where the main document can also be fetched under its own identifier, a   *)
(* position of both may be the same one.                                     *)
(***************************************************************************)
EXTENDS TSem

Canon(w) == IF IsNum(w) THEN <<w.ng, w.dg, w.ex>> ELSE <<1, <<1>>, 1>>
Calls(bs) == [j \in 1..Len(bs) |-> <<bs[j][1], Canon(bs[j][2])>>]
Times(bs, x) == Cardinality({j \in 1..Len(bs) : bs[j] = x})

Own(E) == LET root == E.docs[1].v
          IN {k \in 2..Len(E.docs) : HasId(root, E) /\ E.docs[k].u = NoFrag(IdText(root, E))}
Least(blt, x, own) ==
  LET cs == Calls(blt)
  IN Cardinality({<<IF blt[j][3][1] \in own THEN 1 ELSE blt[j][3][1], blt[j][3][2], blt[j][4]>> :
                    j \in {q \in 1..Len(blt) : cs[q] = x}})

BuiltOk(o, ld, refs, own) ==
  LET got == Calls(o.built)
      all == Calls(ld.blt)
      xs == {got[j] : j \in 1..Len(got)} \cup {all[j] : j \in 1..Len(all)}
  IN \A x \in xs : /\ ld.ok => Times(got, x) >= Least(ld.blt, x, own)
                 /\ Times(got, x) <= Times(all, x) * (1 + refs)

CheckCustom ==
  LET row == Rows[i]
      ld == Load([row.E EXCEPT !.strict = TRUE])
      w == Why(row)
      bad == {k \in 1..Len(row.obs) : ~BuiltOk(row.obs[k], ld, row.refs, Own(row.E))}
      all == IF bad # {} THEN <<"built", bad, ld.ok>> ELSE w
  IN all = <<>> \/ PrintT(<<"REJECT", row.id, ToString(all)>>)
=============================================================================
