------------------------------ MODULE VSchema -------------------------------
(***************************************************************************)
(* What a loaded schema says about a document.                              *)
(*                                                                         *)
(* Eval(s, v, pt, cx, c, E) is the verdict of schema s on value v and the   *)
(* multiset (as a sequence) of errors reported when details are asked for.  *)
(* pt and cx are the JSON Pointer and the legacy context of v, c is the     *)
(* context of s (see VRef), E = [docs, draft, strict, sdt].                 *)
(***************************************************************************)
EXTENDS VRef, VRegex, VFormat

OKR == [ok |-> TRUE, er |-> <<>>]
Err(pt, cx, k) == <<[p |-> pt, x |-> cx, k |-> k]>>
FailR(pt, cx, k) == [ok |-> FALSE, er |-> Err(pt, cx, k)]
When(cond, pt, cx, k) == IF cond THEN OKR ELSE FailR(pt, cx, k)

\* conjunction of a sequence of results
AllR(rs) == [ok |-> \A i \in 1..Len(rs) : rs[i].ok,
             er |-> Concat([i \in 1..Len(rs) |-> rs[i].er])]
\* a result followed by an own error when it failed
AndErr(r, pt, cx, k) == IF r.ok THEN OKR ELSE [ok |-> FALSE, er |-> r.er \o Err(pt, cx, k)]

AtIndex(pt, i) == pt \o <<47>> \o IntText(i)
CxIndex(cx, i) == Append(cx, <<91>> \o IntText(i) \o <<93>>)
AtName(pt, c) == pt \o <<47>> \o EscapeToken(c)
CxName(cx, c) == Append(cx, <<91, 34>> \o c \o <<34, 93>>)

RootCx == << <<60,114,111,111,116,62>> >>      \* "<root>"

(* ---- what a keyword sees in strict and in weak mode ---- *)
SeesNum(v, E) == IF E.strict THEN IsNum(v) ELSE WNum(v)
SeesStr(v, E) == IF E.strict THEN IsStr(v) ELSE WStr(v)
SeesArr(v, E) == IF E.strict THEN IsArr(v) ELSE WArr(v)
SeesObj(v, E) == IF E.strict THEN IsObj(v) ELSE WObj(v)

TypeOk(name, v, E) ==
  CASE name = "any"     -> TRUE
    [] name = "array"   -> IsArr(v)
    [] name = "object"  -> IsObj(v)
    [] name = "string"  -> IsStr(v)
    [] name = "boolean" -> IF E.strict THEN IsBool(v) ELSE WBool(v)
    [] name = "null"    -> IF E.strict THEN IsNull(v) ELSE WNull(v)
    [] name = "number"  -> SeesNum(v, E)
    [] name = "integer" -> IF E.strict THEN IsIntNum(v) ELSE WInt(v)
    [] OTHER            -> FALSE

\* members of a value as the object keywords see it
HasM(v, n) == \E i \in 1..Len(Members(v)) : Members(v)[i].n = n
ValM(v, n) == LET ms == Members(v) IN ms[CHOOSE i \in 1..Len(ms) : ms[i].n = n].v

\* the value of a numeric schema keyword (schema texts are read weakly)
SNum(s) == AsNum(s)

RECURSIVE Eval(_, _, _, _, _, _), OneOfChildren(_, _, _, _, _, _, _), AllOfFrom(_, _, _, _, _, _, _)

\* children of anyOf/oneOf: verdicts and, for the failing ones, errors
OneOfChildren(ss, i, v, pt, cx, c, E) ==
  IF i > Len(ss) THEN <<>>
  ELSE <<Eval(ss[i], v, pt, cx, c, E)>> \o OneOfChildren(ss, i + 1, v, pt, cx, c, E)

ChildErrs(rs) == Concat([i \in 1..Len(rs) |-> IF rs[i].ok THEN <<>> ELSE rs[i].er])

\* allOf reports up to its first failing child
AllOfFrom(ss, i, v, pt, cx, c, E) ==
  IF i > Len(ss) THEN OKR
  ELSE LET r == Eval(ss[i], v, pt, cx, c, E)
       IN IF r.ok THEN AllOfFrom(ss, i + 1, v, pt, cx, c, E)
          ELSE [ok |-> FALSE, er |-> r.er \o Err(pt, cx, "child")]

KwAllOf(ss, v, pt, cx, c, E) == AllOfFrom(ss, 1, v, pt, cx, c, E)

WithChild(rs, pt, cx) ==
  Concat([i \in 1..Len(rs) |-> IF rs[i].ok THEN <<>> ELSE rs[i].er \o Err(pt, cx, "child")])

KwAnyOf(ss, v, pt, cx, c, E) ==
  LET rs == OneOfChildren(ss, 1, v, pt, cx, c, E)
  IN IF \E i \in 1..Len(rs) : rs[i].ok THEN OKR
     ELSE [ok |-> FALSE, er |-> WithChild(rs, pt, cx) \o Err(pt, cx, "anyOf")]

KwOneOf(ss, v, pt, cx, c, E) ==
  LET rs == OneOfChildren(ss, 1, v, pt, cx, c, E)
      n  == Cardinality({i \in 1..Len(rs) : rs[i].ok})
  IN IF n = 1 THEN OKR
     ELSE IF n = 0 THEN [ok |-> FALSE, er |-> WithChild(rs, pt, cx) \o Err(pt, cx, "oneOf")]
     ELSE FailR(pt, cx, "oneOfMany")

KwNot(s, v, pt, cx, c, E) == When(~Eval(s, v, pt, cx, c, E).ok, pt, cx, "not")

KwIf(s, v, pt, cx, c, E) ==
  LET br == IF Eval(Get(s, "if"), v, pt, cx, c, E).ok THEN "then" ELSE "else"
  IN IF ~Has(s, br) THEN OKR
     ELSE AndErr(Eval(Get(s, br), v, pt, cx, c, E), pt, cx, "cond")

KwType(t, v, pt, cx, c, E) ==
  LET alts == IF IsArr(t) THEN t.e ELSE <<t>>
      named == \E i \in 1..Len(alts) : IsStr(alts[i]) /\ TypeOk(alts[i].s, v, E)
      schemas == SelectSeq(alts, LAMBDA a : ~IsStr(a))
      rs == OneOfChildren(schemas, 1, v, pt, cx, c, E)
  IN IF named \/ \E i \in 1..Len(rs) : rs[i].ok THEN OKR
     ELSE [ok |-> FALSE, er |-> ChildErrs(rs) \o Err(pt, cx, "type")]

(* ---- numbers and strings ---- *)
KwMax(lim, excl, v, pt, cx, E) ==
  IF ~SeesNum(v, E) THEN OKR
  ELSE LET d == NCmp(AsNum(v), lim) IN When(IF excl THEN d < 0 ELSE d <= 0, pt, cx, "max")
KwMin(lim, excl, v, pt, cx, E) ==
  IF ~SeesNum(v, E) THEN OKR
  ELSE LET d == NCmp(AsNum(v), lim) IN When(IF excl THEN d > 0 ELSE d >= 0, pt, cx, "min")
KwMult(m, v, pt, cx, E) ==
  IF ~SeesNum(v, E) THEN OKR ELSE When(NMultiple(AsNum(v), m), pt, cx, "mult")

\* a non-negative count from the schema; nothing here has a thousand million parts
SmallNat(s) == LET a == AsNum(s) IN IF a.ex > 9 THEN 1000000000 ELSE ScaledMag(a, 0)

KwLen(s, v, pt, cx, E) ==
  IF ~SeesStr(v, E) THEN OKR
  ELSE LET n == Len(AsStr(v))
       IN AllR(<<When(~Has(s, "minLength") \/ n >= SmallNat(Get(s, "minLength")), pt, cx, "minLen"),
                 When(~Has(s, "maxLength") \/ n <= SmallNat(Get(s, "maxLength")), pt, cx, "maxLen")>>)
KwPattern(p, v, pt, cx, E) ==
  IF ~SeesStr(v, E) THEN OKR ELSE When(Search(p.rx, AsStr(v)), pt, cx, "pattern")
KwFormat(f, v, pt, cx, E) ==
  IF ~IsStr(v) THEN OKR ELSE When(FormatOk(f.s, v.c, E.sdt), pt, cx, "fmt")

(* ---- arrays ---- *)
RECURSIVE EachItem(_, _, _, _, _, _, _, _, _)
\* elements i..hi of es against schema s; own error k at the array
EachItem(s, es, i, hi, pt, cx, c, E, k) ==
  IF i > hi THEN <<>>
  ELSE <<AndErr(Eval(s, es[i], AtIndex(pt, i - 1), CxIndex(cx, i - 1), c, E), pt, cx, k)>>
       \o EachItem(s, es, i + 1, hi, pt, cx, c, E, k)

RECURSIVE EachPos(_, _, _, _, _, _, _, _)
\* position by position; own error at the element
EachPos(ss, es, i, hi, pt, cx, c, E) ==
  IF i > hi THEN <<>>
  ELSE <<LET p2 == AtIndex(pt, i - 1)
             x2 == CxIndex(cx, i - 1)
         IN AndErr(Eval(ss[i], es[i], p2, x2, c, E), p2, x2, "item")>>
       \o EachPos(ss, es, i + 1, hi, pt, cx, c, E)

KwItems(s, v, pt, cx, c, E) ==
  LET it == Get(s, "items")
  IN IF ~IsArr(it)
     THEN IF ~IsArr(v) THEN OKR
          ELSE AllR(EachItem(it, v.e, 1, Len(v.e), pt, cx, c, E, "arrItem"))
     ELSE IF ~SeesArr(v, E) THEN OKR
     ELSE LET es  == Elems(v)
              n   == Len(es)
              cnt == Len(it.e)
              has == Has(s, "additionalItems")
              ad  == Get(s, "additionalItems")
              none == has /\ WBool(ad) /\ ~AsBool(ad)
              free == ~has \/ (WBool(ad) /\ AsBool(ad))
          IN AllR(<<When(~(cnt > 0 /\ none /\ n > cnt), pt, cx, "tooMany")>>
                  \o EachPos(it.e, es, 1, MinI(n, cnt), pt, cx, c, E)
                  \o (IF n <= cnt \/ free THEN <<>>
                      ELSE IF none THEN <<FailR(pt, cx, "itemsOver")>>
                      ELSE EachItem(ad, es, cnt + 1, n, pt, cx, c, E, "addItem")))

KwContains(s, v, pt, cx, c, E) ==
  IF ~SeesArr(v, E) THEN OKR
  ELSE When(\E i \in 1..Len(Elems(v)) : Eval(s, Elems(v)[i], pt, cx, c, E).ok, pt, cx, "contains")

KwUnique(v, pt, cx, E) ==
  IF ~SeesArr(v, E) THEN OKR
  ELSE LET es == Elems(v)
           n == Len(es)
           same(i) == Cardinality({j \in (i + 1)..n : DeepEq(es[i], es[j])})
           er == Concat([i \in 1..n |-> [k \in 1..same(i) |-> Err(pt, cx, "unique")[1]]])
       IN [ok |-> er = <<>>, er |-> er]

KwSizes(s, v, pt, cx, E) ==
  AllR((IF SeesArr(v, E)
        THEN <<When(~Has(s, "minItems") \/ Len(Elems(v)) >= SmallNat(Get(s, "minItems")), pt, cx, "minItems"),
               When(~Has(s, "maxItems") \/ Len(Elems(v)) <= SmallNat(Get(s, "maxItems")), pt, cx, "maxItems")>>
        ELSE <<>>)
       \o (IF SeesObj(v, E)
        THEN <<When(~Has(s, "minProperties") \/ Len(Members(v)) >= SmallNat(Get(s, "minProperties")), pt, cx, "minProps"),
               When(~Has(s, "maxProperties") \/ Len(Members(v)) <= SmallNat(Get(s, "maxProperties")), pt, cx, "maxProps")>>
        ELSE <<>>))

(* ---- objects ---- *)
Member(m, s, pt, cx, c, E, k) ==
  AndErr(Eval(s, m.v, AtName(pt, m.c), CxName(cx, m.c), c, E), pt, cx, k)

KwProps(s, v, pt, cx, c, E) ==
  IF ~SeesObj(v, E) THEN OKR
  ELSE LET ms == Members(v)
           pr == IF Has(s, "properties") THEN Get(s, "properties").m ELSE <<>>
           pp == IF Has(s, "patternProperties") THEN Get(s, "patternProperties").m ELSE <<>>
           named(m) == \E i \in 1..Len(pr) : pr[i].n = m.n
           patted(m) == \E i \in 1..Len(pp) : Search(pp[i].rx, m.c)
           has == Has(s, "additionalProperties")
           ad == Get(s, "additionalProperties")
           rest == IF has THEN SelectSeq(ms, LAMBDA m : ~named(m) /\ ~patted(m)) ELSE <<>>
           none == has /\ WBool(ad) /\ ~AsBool(ad)
           free == ~has \/ (WBool(ad) /\ AsBool(ad))
           byName == [i \in 1..Len(pr) |->
                        IF HasM(v, pr[i].n)
                        THEN Member([pr[i] EXCEPT !.v = ValM(v, pr[i].n)], pr[i].v, pt, cx, c, E, "prop")
                        ELSE OKR]
           byPat == [i \in 1..Len(pp) |->
                       LET hit == SelectSeq(ms, LAMBDA m : Search(pp[i].rx, m.c))
                       IN AllR([j \in 1..Len(hit) |-> Member(hit[j], pp[i].v, pt, cx, c, E, "patProp")])]
           byRest == IF free THEN <<>>
                     ELSE IF none THEN <<When(rest = <<>>, pt, cx, "unwanted")>>
                     ELSE [j \in 1..Len(rest) |-> Member(rest[j], ad, pt, cx, c, E, "addProp")]
       IN AllR(byName \o byPat \o byRest)

\* names required of v: draft 4/7 from required, draft 3 from the properties
RequiredNames(s, c, E) ==
  IF E.draft # 3
  THEN IF Has(s, "required") THEN [i \in 1..Len(Get(s, "required").e) |-> Get(s, "required").e[i].s] ELSE <<>>
  ELSE IF ~Has(s, "properties") THEN <<>>
  ELSE LET pr == Get(s, "properties").m
           req(m) == LET d == Deref(m.v, c, E).s
                     IN IsObj(d) /\ Has(d, "required") /\ AsBool(Get(d, "required"))
           rs == SelectSeq(pr, req)
       IN [i \in 1..Len(rs) |-> rs[i].n]

\* a name listed twice counts once
Seen(ns, i) == \E j \in 1..(i - 1) : ns[j] = ns[i]
KwRequired(s, v, pt, cx, c, E) ==
  IF ~SeesObj(v, E) THEN OKR
  ELSE LET ns == RequiredNames(s, c, E)
       IN AllR([i \in 1..Len(ns) |-> When(Seen(ns, i) \/ HasM(v, ns[i]), pt, cx, "required")])

KwDeps(d, v, pt, cx, c, E) ==
  IF ~SeesObj(v, E) THEN OKR
  ELSE LET ms == Members(d)
           one(m) == IF ~HasM(v, m.n) THEN OKR
                     ELSE IF WArr(m.v)
                     THEN LET ns == [j \in 1..Len(Elems(m.v)) |-> Elems(m.v)[j].s]
                          IN AllR([j \in 1..Len(ns) |-> When(Seen(ns, j) \/ HasM(v, ns[j]), pt, cx, "dep")])
                     ELSE IF IsStr(m.v) /\ E.draft = 3 THEN When(HasM(v, m.v.s), pt, cx, "dep")
                     ELSE AndErr(Eval(m.v, v, pt, cx, c, E), pt, cx, "depSchema")
       IN AllR([i \in 1..Len(ms) |-> one(ms[i])])

\* propertyNames sees each member name as a string value
KwNames(s, v, pt, cx, c, E) ==
  IF ~SeesObj(v, E) THEN OKR
  ELSE LET ms == Members(v)
       IN When(\A i \in 1..Len(ms) :
                 Eval(s, [t |-> "s", c |-> ms[i].c, s |-> ms[i].n], pt, cx, c, E).ok,
               pt, cx, "propNames")

(* ---- registered custom keywords: E.custom lists those that have a builder;
   "x-lower" bounds numbers from below, any other one from above ---- *)
Registered(k, E) == \E i \in 1..Len(E.custom) : E.custom[i] = k
KwCustom(name, k, v, pt, cx, E) ==
  IF ~IsNum(v) THEN OKR
  ELSE When(IF name = "x-lower" THEN NCmp(AsNum(v), AsNum(k)) >= 0 ELSE NCmp(AsNum(v), AsNum(k)) <= 0, pt, cx, "custom")
\* every builder that is registered for a keyword makes a constraint
KwCustoms(s, v, pt, cx, E) ==
  LET reg == SelectSeq(E.custom, LAMBDA k : Has(s, k))
  IN AllR([i \in 1..Len(reg) |-> KwCustom(reg[i], Get(s, reg[i]), v, pt, cx, E)])

(* ---- the schema ---- *)
\* the conjunction of every keyword present, in no particular order
Keywords(s, v, pt, cx, c, E) ==
  LET H(k) == Has(s, k)
      G(k) == Get(s, k)
      d3 == E.draft = 3
      d7 == E.draft = 7
      mult == IF d3 THEN "divisibleBy" ELSE "multipleOf"
      exMax == ~d7 /\ H("exclusiveMaximum") /\ AsBool(G("exclusiveMaximum"))
      exMin == ~d7 /\ H("exclusiveMinimum") /\ AsBool(G("exclusiveMinimum"))
      ext == G("extends")
  IN  (IF H("type") THEN <<KwType(G("type"), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("allOf") THEN <<KwAllOf(Elems(G("allOf")), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("anyOf") THEN <<KwAnyOf(Elems(G("anyOf")), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("oneOf") THEN <<KwOneOf(Elems(G("oneOf")), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("not") THEN <<KwNot(G("not"), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF d7 /\ H("if") THEN <<KwIf(s, v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF d3 /\ H("extends")
      THEN <<KwAllOf(IF IsArr(ext) THEN ext.e ELSE <<ext>>, v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("const") THEN <<When(EqIn(E.strict, G("const"), v), pt, cx, "const")>> ELSE <<>>)
  \o (IF H("enum")
      THEN <<When(\E i \in 1..Len(G("enum").e) : EqIn(E.strict, G("enum").e[i], v), pt, cx, "enum")>>
      ELSE <<>>)
  \o (IF H("maximum") THEN <<KwMax(AsNum(G("maximum")), exMax, v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("minimum") THEN <<KwMin(AsNum(G("minimum")), exMin, v, pt, cx, E)>> ELSE <<>>)
  \o (IF d7 /\ H("exclusiveMaximum")
      THEN <<KwMax(AsNum(G("exclusiveMaximum")), TRUE, v, pt, cx, E)>> ELSE <<>>)
  \o (IF d7 /\ H("exclusiveMinimum")
      THEN <<KwMin(AsNum(G("exclusiveMinimum")), TRUE, v, pt, cx, E)>> ELSE <<>>)
  \o (IF H(mult) THEN <<KwMult(AsNum(G(mult)), v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("minLength") \/ H("maxLength") THEN <<KwLen(s, v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("pattern") THEN <<KwPattern(G("pattern"), v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("format") THEN <<KwFormat(G("format"), v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("items") THEN <<KwItems(s, v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("contains") THEN <<KwContains(G("contains"), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("uniqueItems") /\ AsBool(G("uniqueItems")) THEN <<KwUnique(v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("minItems") \/ H("maxItems") \/ H("minProperties") \/ H("maxProperties")
      THEN <<KwSizes(s, v, pt, cx, E)>> ELSE <<>>)
  \o (IF H("properties") \/ H("patternProperties") \/ H("additionalProperties")
      THEN <<KwProps(s, v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF d7 /\ H("propertyNames") THEN <<KwNames(G("propertyNames"), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("required") \/ (d3 /\ H("properties")) THEN <<KwRequired(s, v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF H("dependencies") THEN <<KwDeps(G("dependencies"), v, pt, cx, c, E)>> ELSE <<>>)
  \o (IF E.custom # <<>> THEN <<KwCustoms(s, v, pt, cx, E)>> ELSE <<>>)

\* the meaning of a schema position: follow references, then every keyword.
\* An array or object that is empty is the empty schema wherever the parser
\* reads the position weakly, so a non-object that is not a boolean accepts.
Eval(s0, v, pt, cx, c0, E) ==
  LET r == Deref(s0, c0, E)
      s == r.s
  IN IF ~IsObj(s)
     THEN IF WBool(s) THEN When(AsBool(s), pt, cx, "false") ELSE OKR
     ELSE AllR(Keywords(s, v, pt, cx, [r.c EXCEPT !.b = BaseIn(s, r.c.b, E)], E))

\* the verdict and the errors of the main document's root schema
Verdict(v, E) == Eval(E.docs[1].v, v, <<>>, RootCx, RootCtx(E), E)
=============================================================================
