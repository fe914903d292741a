------------------------------- MODULE VParse -------------------------------
(***************************************************************************)
(* Which schema documents load.  Loading walks the schema positions that    *)
(* are reachable from the root, through references, each location once; it  *)
(* succeeds when every one of them is well-formed for the draft and every   *)
(* reference leads somewhere.                                               *)
(***************************************************************************)
EXTENDS VSchema

TypeNames(E) == {"array", "boolean", "integer", "null", "number", "object", "string"}
                \cup (IF E.draft = 3 THEN {"any"} ELSE {})

AllElems(v, P(_)) == \A i \in 1..Len(v.e) : P(v.e[i])
AllVals(o, P(_)) == \A i \in 1..Len(o.m) : P(o.m[i].v)

\* a position that has to hold a schema (a reference is an object)
SchemaPos(v, E) == IsObj(v) \/ (E.draft = 7 /\ WBool(v))
Count(v) == WInt(v) /\ (IsZero(AsInt(v)) \/ AsInt(v).ng = 0)
Divisor(v) == WNum(v) /\ ~IsZero(AsNum(v)) /\ AsNum(v).ng = 0

TypeShape(v, E) ==
  \/ IsStr(v) /\ v.s \in TypeNames(E)
  \/ /\ IsArr(v) /\ v.e # <<>>
     /\ AllElems(v, LAMBDA e : \/ IsStr(e) /\ e.s \in TypeNames(E)
                               \/ E.draft = 3 /\ IsObj(e) /\ e.m # <<>>)
  \/ E.draft = 3 /\ IsObj(v) /\ v.m # <<>>

DepShape(v, E) ==
  IF WArr(v) THEN \A i \in 1..Len(Elems(v)) : IsStr(Elems(v)[i])
  ELSE IsObj(v) \/ (E.draft = 7 /\ WBool(v)) \/ (E.draft = 3 /\ IsStr(v))

\* the custom constraint for this number refuses to be copied into a schema
Uncopied(w) == NEq(Num(w), [ng |-> 1, dg |-> <<7, 7>>, ex |-> 2])

\* is the value w of keyword k acceptable in schema s?  par: s is the value
\* of a member of properties or patternProperties
KwShape(s, k, w, par, E) ==
  LET d3 == E.draft = 3
      d7 == E.draft = 7
      Pos(x) == SchemaPos(x, E)
  IN CASE k = "type" -> TypeShape(w, E)
       [] k \in {"allOf", "anyOf"} ->
            WArr(w) /\ \A i \in 1..Len(Elems(w)) : IsObj(Elems(w)[i]) \/ (d7 /\ IsBool(Elems(w)[i]))
       [] k = "oneOf" -> IsArr(w) /\ AllElems(w, Pos)
       [] k = "not" -> Pos(w)
       [] k = "if" -> d7 /\ Pos(w)
       [] k \in {"then", "else"} -> ~(d7 /\ Has(s, "if")) \/ Pos(w)
       [] k = "contains" -> Pos(w) \/ EmptyArr(w)
       [] k = "items" -> IF IsArr(w) THEN AllElems(w, Pos) ELSE Pos(w)
       [] k = "additionalItems" ->
            ~(Has(s, "items") /\ IsArr(Get(s, "items"))) \/ WBool(w) \/ IsObj(w)
       [] k = "dependencies" -> WObj(w) /\ \A i \in 1..Len(Members(w)) : DepShape(Members(w)[i].v, E)
       [] k = "extends" ->
            ~d3 \/ (WArr(w) /\ \A i \in 1..Len(Elems(w)) : IsObj(Elems(w)[i])) \/ IsObj(w)
       [] k \in {"title", "description"} -> WStr(w)
       [] k = "divisibleBy" -> d3 /\ Divisor(w)
       [] k = "multipleOf" -> ~d3 /\ Divisor(w)
       [] k = "enum" -> IsArr(w)
       [] k = "format" -> IsStr(w) /\ w.c # <<>>
       [] k \in {"maximum", "minimum"} -> WNum(w)
       [] k = "exclusiveMaximum" -> IF d7 THEN WNum(w) ELSE Has(s, "maximum") /\ WBool(w)
       [] k = "exclusiveMinimum" -> IF d7 THEN WNum(w) ELSE Has(s, "minimum") /\ WBool(w)
       [] k \in {"maxItems", "minItems", "maxLength", "minLength",
                 "maxProperties", "minProperties"} -> Count(w)
       [] k = "pattern" -> IsStr(w)
       [] k \in {"properties", "patternProperties"} -> IsObj(w) /\ AllVals(w, Pos)
       [] k = "additionalProperties" -> WBool(w) \/ IsObj(w)
       [] k = "propertyNames" -> d7 /\ Pos(w)
       [] k = "required" -> IF d3 THEN par /\ WBool(w)
                            ELSE IsArr(w) /\ AllElems(w, IsStr)
       [] k = "uniqueItems" -> WBool(w)
       [] OTHER -> ~Registered(k, E) \/ (IsNum(w) /\ ~Uncopied(w))   \* a custom bound has to be a number

Shape(s, par, E) == \A i \in 1..Len(s.m) : KwShape(s, s.m[i].n, s.m[i].v, par, E)

(* ---- the schema positions inside a schema object ---- *)
\* [v, l, par]: the value, the path to it, and whether required may occur
PosOne(k, v) == <<[v |-> v, l |-> <<ToUtf8(k)>>, par |-> FALSE]>>
PosElems(k, v) == [i \in 1..Len(v.e) |-> [v |-> v.e[i], l |-> <<ToUtf8(k), IntText(i - 1)>>, par |-> FALSE]]
PosVals(k, v, par) == [i \in 1..Len(v.m) |-> [v |-> v.m[i].v, l |-> <<ToUtf8(k), ToUtf8(v.m[i].c)>>, par |-> par]]

KwSubs(s, m, E) ==
  LET k == m.n
      w == m.v
      d3 == E.draft = 3
      d7 == E.draft = 7
      isSchema == IsObj(w) \/ (d7 /\ WBool(w))
  IN CASE k \in {"allOf", "anyOf", "oneOf"} -> IF IsArr(w) THEN PosElems(m.c, w) ELSE <<>>
       [] k \in {"not", "contains"} -> IF isSchema THEN PosOne(m.c, w) ELSE <<>>
       [] k \in {"if", "propertyNames"} -> IF d7 /\ isSchema THEN PosOne(m.c, w) ELSE <<>>
       [] k \in {"then", "else"} -> IF d7 /\ Has(s, "if") /\ isSchema THEN PosOne(m.c, w) ELSE <<>>
       [] k = "items" -> IF IsArr(w) THEN PosElems(m.c, w)
                         ELSE IF isSchema THEN PosOne(m.c, w) ELSE <<>>
       [] k = "additionalItems" ->
            IF Has(s, "items") /\ IsArr(Get(s, "items")) /\ IsObj(w) THEN PosOne(m.c, w) ELSE <<>>
       [] k = "dependencies" ->
            IF IsObj(w) THEN SelectSeq(PosVals(m.c, w, FALSE),
                                       LAMBDA p : ~WArr(p.v) /\ (IsObj(p.v) \/ (d7 /\ WBool(p.v))))
            ELSE <<>>
       [] k = "extends" -> IF ~d3 THEN <<>>
                           ELSE IF IsArr(w) THEN PosElems(m.c, w)
                           ELSE IF IsObj(w) /\ ~EmptyObj(w) THEN PosOne(m.c, w) ELSE <<>>
       [] k = "type" -> IF ~d3 THEN <<>>
                        ELSE IF IsArr(w) THEN SelectSeq(PosElems(m.c, w), LAMBDA p : IsObj(p.v))
                        ELSE IF IsObj(w) THEN PosOne(m.c, w) ELSE <<>>
       [] k \in {"properties", "patternProperties"} -> IF IsObj(w) THEN PosVals(m.c, w, TRUE) ELSE <<>>
       [] k = "additionalProperties" -> IF IsObj(w) THEN PosOne(m.c, w) ELSE <<>>
       [] OTHER -> <<>>

Subs(s, E) == Concat([i \in 1..Len(s.m) |-> KwSubs(s, s.m[i], E)])

(* ---- the walk ---- *)
\* the custom keywords of a schema with their values and its location, once
\* per builder
Built(s, loc, E) == LET reg == SelectSeq(E.custom, LAMBDA k : Has(s, k))
                    IN [i \in 1..Len(reg) |-> <<reg[i], Get(s, reg[i]), loc, i>>]

\* st = [ok, seen, fet, blt]; it goes on after a failure so that fet is every
\* remote URI that any order of visiting could ask for
RECURSIVE LoadAt(_, _, _, _, _), LoadAll(_, _, _, _, _)
LoadAt(s, c, par, st, E) ==
  LET r  == Deref(s, c, E)
      c2 == [r.c EXCEPT !.b = BaseIn(r.s, r.c.b, E)]
      loc == <<r.c.d, r.c.l>>
      st2 == [st EXCEPT !.fet = st.fet \cup r.f]
  IN IF ~r.ok THEN [st2 EXCEPT !.ok = FALSE]
     ELSE IF loc \in st.seen THEN st2
     ELSE IF ~IsObj(r.s)
     THEN [st2 EXCEPT !.ok = st.ok /\ E.draft = 7 /\ WBool(r.s), !.seen = st.seen \cup {loc}]
     ELSE LoadAll(Subs(r.s, E), 1, c2,
                  [st2 EXCEPT !.ok = st.ok /\ Shape(r.s, par, E), !.seen = st.seen \cup {loc},
                          !.blt = st.blt \o Built(r.s, loc, E)], E)
LoadAll(ps, i, c, st, E) ==
  IF i > Len(ps) THEN st
  ELSE LoadAll(ps, i + 1, c,
               LoadAt(ps[i].v, [c EXCEPT !.l = c.l \o ps[i].l], ps[i].par, st, E), E)

Load(E) == LoadAt(E.docs[1].v, RootCtx(E), FALSE, [ok |-> TRUE, seen |-> {}, fet |-> {}, blt |-> <<>>], E)
=============================================================================
