-------------------------------- MODULE VRef --------------------------------
(***************************************************************************)
(* JSON Pointers and $ref: which node of which document a reference means.  *)
(* The environment E has the documents E.docs (1 is the main one, the rest  *)
(* the remote ones with their URI u), the draft and fetch (may remote   *)
(* documents be fetched?).  A context c says where *)
(* a schema was found: document index c.d, base URI c.b (a sequence, <<>>   *)
(* for none) and the location c.l, a sequence of unescaped tokens.          *)
(***************************************************************************)
EXTENDS VValue, VUri

(* ---- pointers ---- *)

\* percent-decode a token; <<-1>> for a bad escape
RECURSIVE PctFrom(_, _)
PctFrom(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE IF s[k] # 37 THEN <<s[k]>> \o PctFrom(s, k + 1)
  ELSE IF k + 2 <= Len(s) /\ IsHex(s[k + 1]) /\ IsHex(s[k + 2])
       THEN <<HexVal(s[k + 1]) * 16 + HexVal(s[k + 2])>> \o PctFrom(s, k + 3)
  ELSE <<-1>> \o PctFrom(s, k + 1)

RECURSIVE UnescFrom(_, _)
UnescFrom(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE IF s[k] = 126 /\ k < Len(s) /\ s[k + 1] = 49 THEN <<47>> \o UnescFrom(s, k + 2)
  ELSE IF s[k] = 126 /\ k < Len(s) /\ s[k + 1] = 48 THEN <<126>> \o UnescFrom(s, k + 2)
  ELSE <<s[k]>> \o UnescFrom(s, k + 1)

BadTok(t) == \E i \in 1..Len(t) : t[i] = -1
DecodeToken(raw) == LET p == PctFrom(raw, 1) IN IF BadTok(p) THEN p ELSE UnescFrom(p, 1)

\* tokens of a pointer given as bytes: each member is a decoded token
PtrTokens(p) ==
  IF p = <<>> THEN <<>>
  ELSE LET ps == Pieces(p, Slash) IN [i \in 1..(Len(ps) - 1) |-> DecodeToken(ps[i + 1])]
PtrWellFormed(p) == p = <<>> \/ p[1] = Slash

\* array index: plain decimal, no sign, no leading zero
IsIndexTok(t) == t # <<>> /\ DigitsIn(t, 1, Len(t)) /\ (Len(t) > 1 => t[1] # 48)
\* 1-based position, or 0 when the index is out of range
IndexPos(t, n) == IF Len(t) > 6 THEN 0
                  ELSE LET i == DecVal(t, 1, Len(t), 0) IN IF i < n THEN i + 1 ELSE 0

RECURSIVE MemberByBytes(_, _, _)
MemberByBytes(o, t, i) ==
  IF i > Len(o.m) THEN 0 ELSE IF ToUtf8(o.m[i].c) = t THEN i ELSE MemberByBytes(o, t, i + 1)

\* one step; [ok, v, tok] where tok is the token as a path element
Step(v, t) ==
  IF BadTok(t) THEN [ok |-> FALSE, v |-> v]
  ELSE IF IsArr(v)
  THEN LET k == IF IsIndexTok(t) THEN IndexPos(t, Len(v.e)) ELSE 0
       IN IF k = 0 THEN [ok |-> FALSE, v |-> v] ELSE [ok |-> TRUE, v |-> v.e[k]]
  ELSE IF IsObj(v)
  THEN LET k == MemberByBytes(v, t, 1)
       IN IF k = 0 THEN [ok |-> FALSE, v |-> v] ELSE [ok |-> TRUE, v |-> v.m[k].v]
  ELSE [ok |-> FALSE, v |-> v]

RECURSIVE WalkToks(_, _, _)
WalkToks(v, ts, k) ==
  IF k > Len(ts) THEN [ok |-> TRUE, v |-> v]
  ELSE LET s == Step(v, ts[k]) IN IF s.ok THEN WalkToks(s.v, ts, k + 1) ELSE s

\* strict: empty tokens name empty keys; lenient: empty tokens are skipped
ResolvePointer(v, ptr, strict) ==
  IF ~PtrWellFormed(ptr) THEN [ok |-> FALSE, v |-> v]
  ELSE LET ts == PtrTokens(ptr)
           us == IF strict THEN ts ELSE SelectSeq(ts, LAMBDA t : t # <<>>)
       IN WalkToks(v, us, 1)

(* ---- identifiers ---- *)
IdKw(E) == IF E.draft = 7 THEN "$id" ELSE "id"
HasId(s, E) == /\ IsObj(s) /\ Has(s, IdKw(E)) /\ IsStr(Get(s, IdKw(E)))
               /\ ~Has(s, "$ref")
IdText(s, E) == ToUtf8(Get(s, IdKw(E)).c)

ChopHash(u) == IF Len(u) > 1 /\ u[Len(u)] = Hash THEN Take(u, Len(u) - 1) ELSE u
ResolvedId(base, id) == IF base = <<>> THEN ChopHash(id) ELSE Resolve(base, ChopHash(id))
NoFrag(u) == LET h == IndexFrom(u, Hash, 1) IN IF h = 0 THEN u ELSE Take(u, h - 1)

\* base URI inside schema s when the base URI around it is b
BaseIn(s, b, E) ==
  IF HasId(s, E)
  THEN LET r == ResolvedId(b, IdText(s, E)) IN IF NoFrag(r) = <<>> THEN b ELSE NoFrag(r)
  ELSE b

\* search the node identified by the absolute URI target
NotFound == [ok |-> FALSE, v |-> [t |-> "n"], b |-> <<>>, l |-> <<>>]
RECURSIVE FindId(_, _, _, _, _), FindInElems(_, _, _, _, _, _), FindInMembers(_, _, _, _, _, _)
FindId(v, b, target, l, E) ==
  IF IsObj(v)
  THEN IF HasId(v, E) /\ ResolvedId(b, IdText(v, E)) = target
       THEN [ok |-> TRUE, v |-> v, b |-> b, l |-> l]
       ELSE FindInMembers(v, 1, BaseIn(v, b, E), target, l, E)
  ELSE IF IsArr(v) THEN FindInElems(v, 1, b, target, l, E)
  ELSE NotFound
FindInElems(v, i, b, target, l, E) ==
  IF i > Len(v.e) THEN NotFound
  ELSE LET r == FindId(v.e[i], b, target, Append(l, IntText(i - 1)), E)
       IN IF r.ok THEN r ELSE FindInElems(v, i + 1, b, target, l, E)
FindInMembers(v, i, b, target, l, E) ==
  IF i > Len(v.m) THEN NotFound
  ELSE IF v.m[i].n \in {"enum", "const"} THEN FindInMembers(v, i + 1, b, target, l, E)
  ELSE LET r == FindId(v.m[i].v, b, target, Append(l, ToUtf8(v.m[i].c)), E)
       IN IF r.ok THEN r ELSE FindInMembers(v, i + 1, b, target, l, E)

\* base URI around the node reached from v (base b) by the tokens ts
RECURSIVE BaseAt(_, _, _, _, _)
BaseAt(v, b, ts, k, E) ==
  IF k > Len(ts) THEN b
  ELSE BaseAt(Step(v, ts[k]).v, BaseIn(v, b, E), ts, k + 1, E)

DocIndex(u, E) ==
  IF \E i \in 2..Len(E.docs) : E.docs[i].u = u
  THEN CHOOSE i \in 2..Len(E.docs) : E.docs[i].u = u ELSE 0

(* ---- one reference step ---- *)
\* result: [ok, s, c, f] where f is the set of remote URIs asked for
RefFail(f) == [ok |-> FALSE, s |-> [t |-> "n"], c |-> [d |-> 0, b |-> <<>>, l |-> <<>>], f |-> f]

Into(root, b, l, d, ptr, E, f) ==
  LET ts == PtrTokens(ptr)
      r  == WalkToks(root, ts, 1)
  IN IF ~PtrWellFormed(ptr) \/ ~r.ok THEN RefFail(f)
     ELSE [ok |-> TRUE, s |-> r.v, f |-> f,
           c |-> [d |-> d, b |-> BaseAt(root, b, ts, 1, E), l |-> l \o ts]]

RefStep(text, c, E) ==
  LET r    == RefSplit(text)
      doc  == E.docs[c.d]
      absu == IF ~r.hasU THEN c.b ELSE IF c.b = <<>> THEN r.u ELSE Resolve(c.b, r.u)
      ptr  == IF r.f = <<Slash>> THEN <<>> ELSE r.f
      name == ptr # <<>> /\ ptr[1] # Slash
      byName == FindId(doc.v, doc.u, absu \o <<Hash>> \o ptr, <<>>, E)
      byId == IF absu = <<>> THEN NotFound ELSE FindId(doc.v, doc.u, absu, <<>>, E)
      here == absu = <<>> \/ absu = c.b
      j    == DocIndex(absu, E)
      asked == IF E.fetch THEN {absu} ELSE {}
  IN IF name
     THEN (IF byName.ok
           THEN [ok |-> TRUE, s |-> byName.v, f |-> {}, c |-> [d |-> c.d, b |-> byName.b, l |-> byName.l]]
           ELSE IF here \/ byId.ok THEN RefFail({})
           ELSE IF ~E.fetch \/ j = 0 THEN RefFail(asked)
           ELSE LET rn == FindId(E.docs[j].v, E.docs[j].u, absu \o <<Hash>> \o ptr, <<>>, E)
                IN IF rn.ok THEN [ok |-> TRUE, s |-> rn.v, f |-> asked, c |-> [d |-> j, b |-> rn.b, l |-> rn.l]]
                   ELSE RefFail(asked))
     ELSE IF byId.ok THEN Into(byId.v, byId.b, byId.l, c.d, ptr, E, {})
     ELSE IF here THEN Into(doc.v, doc.u, <<>>, c.d, ptr, E, {})
     ELSE IF ~E.fetch \/ j = 0 THEN RefFail(asked)
     ELSE Into(E.docs[j].v, E.docs[j].u, <<>>, j, ptr, E, asked)

IsRef(s) == IsObj(s) /\ Has(s, "$ref")

\* follow references until something that is not one; a repeated location is
\* a cycle of references only
RECURSIVE DerefFrom(_, _, _, _, _)
DerefFrom(s, c, E, seen, f) ==
  IF ~IsRef(s) THEN [ok |-> TRUE, s |-> s, c |-> c, f |-> f]
  ELSE IF ~IsStr(Get(s, "$ref")) \/ <<c.d, c.l>> \in seen THEN RefFail(f)
  ELSE LET r == RefStep(ToUtf8(Get(s, "$ref").c), c, E)
       IN IF ~r.ok THEN RefFail(f \cup r.f)
          ELSE DerefFrom(r.s, r.c, E, seen \cup {<<c.d, c.l>>}, f \cup r.f)

Deref(s, c, E) == DerefFrom(s, c, E, {}, {})

RootCtx(E) == [d |-> 1, b |-> E.docs[1].u, l |-> <<>>]
=============================================================================
