-------------------------------- MODULE TTree -------------------------------
(***************************************************************************)
(* Trace validation of adapters and of equality.  A row is                  *)
(*   k = "tree"  v, o: the tree seen through one adapter, and st: whether   *)
(*               that adapter has strict types                              *)
(*   k = "eq"    vals, eq, fr, cl: for each pair of values (row by row) what *)
(*               comparing them, a frozen copy of the first, and a clone of  *)
(*               that frozen copy gave ("t", "f", "x" threw, "u" unreadable) *)
(*   k = "file"  text, got, o: a text that was written to a file, whether    *)
(*               reading the file succeeded ("t", "f", "x" threw), and the   *)
(*               tree it gave; has: there is such a file; how: "strict"      *)
(*               (reads JSON and nothing else), "lax" (and more), "top"      *)
(*               (only arrays and objects), "ptree", "yaml"                  *)
(***************************************************************************)
EXTENDS VJson, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Rows)
Lanes == 64
VARIABLE i
Init == i \in 1..(IF N < Lanes THEN N ELSE Lanes)
Next == i + Lanes <= N /\ i' = i + Lanes

EmptyText(v) == IsStr(v) /\ v.c = <<>>
FewDigits(x) == IsZero(x) \/ (Len(x.dg) - x.ex <= 6 /\ x.ex <= 9) \/ (Len(x.dg) <= x.ex /\ x.ex <= 16)

\* a double holds an integer of more than fifteen digits only nearly
Near(a, b) == \/ NEq(a, b)
              \/ /\ a.ex > 15 /\ a.ex = b.ex /\ a.ng = b.ng
                 /\ \A k \in 1..15 : DigitAt(a, k) = DigitAt(b, k)

\* the conversions offered at a node are the weak ones
\* " 1" and "+1" are not JSON literals, and readers differ
OpenText(v) == IsStr(v) /\ v.c # <<>> /\ v.c[1] \in {9, 10, 11, 12, 13, 32, 43} /\ (\E k \in 1..Len(v.c) : IsDigit(v.c[k]))
Casts(v, c) ==
  /\ c.m = <<WArr(v), WBool(v), WNum(v), WInt(v), WNull(v), WObj(v), WStr(v)>>
  /\ c.b = IF WBool(v) THEN (IF AsBool(v) THEN "t" ELSE "f") ELSE "x"
  /\ c.hd = WNum(v) /\ (c.hd => IF v.t = "i" THEN Near(AsNum(v), c.d) ELSE NEq(c.d, AsNum(v)))
  /\ c.hi = WInt(v) /\ (c.hi => NEq(c.i, AsInt(v)))
  /\ c.hs = (WStr(v) \/ IsNull(v))
  /\ c.hs => IF IsNum(v) THEN ParseDec(c.s).ok /\ (v.t = "i" \/ FewDigits(Num(v)) => NEq(ParseDec(c.s).v, Num(v)))
             ELSE c.s = AsStr(v)
  /\ c.na = IF IsArr(v) THEN Len(v.e) ELSE IF EmptyObj(v) \/ EmptyText(v) THEN 0 ELSE -1
  /\ c.no = IF IsObj(v) THEN Len(v.m) ELSE IF EmptyArr(v) \/ EmptyText(v) THEN 0 ELSE -1
  /\ c.ga = IF WArr(v) THEN Len(Elems(v)) ELSE -1
  /\ c.go = IF WObj(v) THEN Len(Members(v)) ELSE -1

CastOk(v, c) == c.same /\ (OpenText(v) \/ Casts(v, c))

\* every way to look at a node agrees with the value
RECURSIVE TreeOk(_, _, _)
TreeOk(v, o, st) ==
  /\ o.st = st
  /\ CastOk(v, o.cv)
  /\ o.num = IsNum(v)
  /\ IF IsNum(v) THEN o.tags \in {1, 2} ELSE o.tags = 1
  /\ CASE IsNull(v) -> o.t = "n"
       [] IsBool(v) -> o.t = "b" /\ o.b = v.b /\ o.as = v.b
       [] IsNum(v)  -> IF o.t = "i" THEN NIntegral(Num(v)) /\ NEq(Num(v), Num(o.i)) /\ NEq(Num(v), Num(o.as))
                                         /\ Near(Num(v), Num(o.d))
                       ELSE o.t = "d" /\ NEq(Num(v), Num(o.d))
       [] IsStr(v)  -> o.t = "s" /\ o.c = v.c /\ o.as = v.c
       [] IsArr(v)  -> /\ o.t = "a" /\ Len(o.e) = Len(v.e)
                       /\ o.sz = Len(v.e) /\ o.gsz = Len(v.e) /\ o.cb = Len(v.e) /\ o.adv
                       /\ \A k \in 1..Len(v.e) : TreeOk(v.e[k], o.e[k], st)
       [] IsObj(v)  -> /\ o.t = "o" /\ Len(o.m) = Len(v.m) /\ o.miss
                       /\ o.sz = Len(v.m) /\ o.gsz = Len(v.m) /\ o.cb = Len(v.m)
                       /\ \A k \in 1..Len(v.m) :
                            \E j \in 1..Len(o.m) : /\ o.m[j].c = v.m[k].c
                                                   /\ o.m[j].f
                                                   /\ TreeOk(v.m[k].v, o.m[j].v, st)

EqBad(row) ==
  LET n == Len(row.vals)
  IN {q \in 1..(n * n) :
        LET a == row.vals[((q - 1) \div n) + 1]
            b == row.vals[((q - 1) % n) + 1]
            w == IF DeepEq(a, b) THEN "t" ELSE "f"
        IN \E s \in {row.eq, row.fr, row.cl} : s[q] # w}

\* equality is an equivalence on these values
Equivalence(vals) ==
  \A a, b \in 1..Len(vals) :
     /\ DeepEq(vals[a], vals[a])
     /\ DeepEq(vals[a], vals[b]) = DeepEq(vals[b], vals[a])
     /\ DeepEq(vals[a], vals[b]) => \A c \in 1..Len(vals) : DeepEq(vals[a], vals[c]) = DeepEq(vals[b], vals[c])

FileOk(row) ==
  IF ~row.has THEN row.got = "f"
  ELSE LET p == Text(row.text)
           loose == row.how \in {"ptree", "yaml"}
       IN /\ row.got # "x"
          /\ ~p.ok /\ row.how = "strict" => row.got = "f"
          /\ row.how # "yaml" /\ Hopeless(row.text) => row.got = "f"
          /\ p.ok /\ Distinct(p.v) /\ (row.how = "top" => ~Scalar(p.v)) =>
               row.got = "t" /\ TreeOk(IF loose THEN Held(p.v, row.how) ELSE p.v, row.o, ~loose)

BadOf(row) ==
  CASE row.k = "tree" -> IF TreeOk(row.v, row.o, row.st) THEN {} ELSE {1}
    [] row.k = "eq"   -> EqBad(row)
    [] row.k = "file" -> IF FileOk(row) THEN {} ELSE {1}
    [] row.k = "long" -> IF Blank(row.text, row.at) /\ FileOk(row) THEN {} ELSE {1}
    [] row.k = "law"  -> IF Equivalence(row.vals) THEN {} ELSE {1}

Check == LET w == BadOf(Rows[i]) IN w = {} \/ PrintT(<<"REJECT", Rows[i].id, ToString(w)>>)
=============================================================================
