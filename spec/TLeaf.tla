-------------------------------- MODULE TLeaf -------------------------------
(***************************************************************************)
(* Trace validation of the leaf operations.  A row is one batch of calls    *)
(* with what the library returned:                                          *)
(*   k = "ptr"   v (document), q << [p, st, ok, r] >>                        *)
(*   k = "uri"   q << [b, r, res, again, abs, urn, hu, u, hf, f] >>          *)
(*   k = "utf8"  q << [s, n] >>                                              *)
(***************************************************************************)
EXTENDS VRef, VUtf8, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Rows)
Lanes == 64
VARIABLE i
Init == i \in 1..(IF N < Lanes THEN N ELSE Lanes)
Next == i + Lanes <= N /\ i' = i + Lanes

PtrOk(v, c) ==
  LET x == ResolvePointer(v, c.p, c.st)
  IN x.ok = c.ok /\ (x.ok => DeepEq(x.v, c.r))

UriOk(c) ==
  /\ (IF c.hu THEN c.u ELSE <<>>) \o (IF c.hf THEN <<Hash>> \o c.f ELSE <<>>) = c.r
  /\ LET s == RefSplit(c.r) IN s.hasU = c.hu /\ s.hasF = c.hf /\ s.u = c.u /\ s.f = c.f
  /\ (AbsDomain(c.r) => c.abs = HasSlashes(c.r))
  /\ (UriDomain(c.b, c.r) =>
        LET x == Resolve(c.b, c.r)
        IN /\ c.res = x
           /\ (HasSlashes(x) => c.again = x))

Utf8Ok(c) == LET b == Utf8Bounds(c.s) IN b.lo <= c.n /\ c.n <= b.hi

BadOf(row) ==
  CASE row.k = "ptr"  -> {j \in 1..Len(row.q) : ~PtrOk(row.v, row.q[j])}
    [] row.k = "uri"  -> {j \in 1..Len(row.q) : ~UriOk(row.q[j])}
    [] row.k = "utf8" -> {j \in 1..Len(row.q) : ~Utf8Ok(row.q[j])}

Check == LET w == BadOf(Rows[i]) IN w = {} \/ PrintT(<<"REJECT", Rows[i].id, ToString(w)>>)
=============================================================================
