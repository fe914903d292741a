------------------------------- MODULE VValue -------------------------------
(***************************************************************************)
(* JSON values, deep equality and the weak ("loose") conversions.           *)
(*   [t|->"n"]  [t|->"b", b]  [t|->"i"/"d", ng, dg, ex]  [t|->"s", c, s]     *)
(*   [t|->"a", e |-> <<..>>]  [t|->"o", m |-> << [n, c, v] .. >>]            *)
(* "i" is a number written as an integer, "d" one written with a fraction   *)
(* or an exponent.  A string carries its code points c and its text s, an   *)
(* object member its name as text n and as code points c.                   *)
(***************************************************************************)
EXTENDS VStr

IsObj(v) == v.t = "o"
IsArr(v) == v.t = "a"
IsStr(v) == v.t = "s"
IsBool(v) == v.t = "b"
IsNum(v) == v.t \in {"i", "d"}
IsNull(v) == v.t = "n"

Keys(o) == {o.m[i].n : i \in 1..Len(o.m)}
Has(o, n) == \E i \in 1..Len(o.m) : o.m[i].n = n
RECURSIVE FindKey(_, _, _)
FindKey(o, n, i) == IF i > Len(o.m) THEN 0 ELSE IF o.m[i].n = n THEN i ELSE FindKey(o, n, i + 1)
Get(o, n) == o.m[FindKey(o, n, 1)].v
GetOr(o, n, d) == LET i == FindKey(o, n, 1) IN IF i = 0 THEN d ELSE o.m[i].v

Num(v) == [ng |-> v.ng, dg |-> v.dg, ex |-> v.ex]

(* ---- strict deep equality: JSON equality ---- *)
RECURSIVE DeepEq(_, _)
DeepEq(a, b) ==
  CASE IsNum(a)  -> IsNum(b) /\ NEq(Num(a), Num(b))
    [] IsNull(a) -> IsNull(b)
    [] IsBool(a) -> IsBool(b) /\ a.b = b.b
    [] IsStr(a)  -> IsStr(b) /\ a.c = b.c
    [] IsArr(a)  -> /\ IsArr(b) /\ Len(a.e) = Len(b.e)
                    /\ \A i \in 1..Len(a.e) : DeepEq(a.e[i], b.e[i])
    [] IsObj(a)  -> /\ IsObj(b) /\ Len(a.m) = Len(b.m)
                    /\ \A i \in 1..Len(a.m) :
                         LET j == FindKey(b, a.m[i].n, 1)
                         IN j # 0 /\ DeepEq(a.m[i].v, b.m[j].v)

(* ---- weak conversions ---- *)
EmptyArr(v) == IsArr(v) /\ v.e = <<>>
EmptyObj(v) == IsObj(v) /\ v.m = <<>>
Empty(v) == EmptyArr(v) \/ EmptyObj(v)

TrueText == <<116,114,117,101>>
FalseText == <<102,97,108,115,101>>

WBool(v) == IsBool(v) \/ (IsStr(v) /\ v.c \in {TrueText, FalseText})
AsBool(v) == IF IsBool(v) THEN v.b ELSE v.c = TrueText
WNull(v) == IsNull(v) \/ (IsStr(v) /\ v.c = <<>>)
WNum(v)  == IsNum(v) \/ (IsStr(v) /\ ParseDec(v.c).ok)
AsNum(v) == IF IsNum(v) THEN Num(v) ELSE ParseDec(v.c).v
IsIntNum(v) == IsNum(v) /\ NIntegral(Num(v)) /\ NInt64(Num(v))
WInt(v)  == IsIntNum(v) \/ (IsStr(v) /\ ParseIntLit(v.c).ok)
AsInt(v) == IF IsNum(v) THEN Num(v) ELSE ParseIntLit(v.c).v
WArr(v)  == IsArr(v) \/ EmptyObj(v)
WObj(v)  == IsObj(v) \/ EmptyArr(v)
WStr(v)  == IsStr(v) \/ IsBool(v) \/ IsNum(v) \/ Empty(v)
AsStr(v) == CASE IsStr(v)  -> v.c
              [] IsBool(v) -> IF v.b THEN TrueText ELSE FalseText
              [] v.t = "i" -> IntegralText(Num(v))
              [] v.t = "d" -> FixedText(Num(v))
              [] OTHER     -> <<>>
Elems(v)   == IF IsArr(v) THEN v.e ELSE <<>>
Members(v) == IF IsObj(v) THEN v.m ELSE <<>>

\* loose equality as the stored value a sees the document value b
RECURSIVE LooseEq(_, _)
LooseEq(a, b) ==
  CASE WNull(a) -> WNull(b)
    [] ~WNull(a) /\ WBool(a) -> WBool(b) /\ AsBool(a) = AsBool(b)
    [] ~WNull(a) /\ ~WBool(a) /\ WNum(a) -> WNum(b) /\ NEq(AsNum(a), AsNum(b))
    [] IsStr(a) /\ ~WNull(a) /\ ~WBool(a) /\ ~WNum(a) -> WStr(b) /\ AsStr(a) = AsStr(b)
    [] Empty(a) -> WStr(b) /\ AsStr(b) = <<>>
    [] IsArr(a) /\ ~Empty(a) ->
         /\ IsArr(b) /\ Len(a.e) = Len(b.e)
         /\ \A i \in 1..Len(a.e) : LooseEq(a.e[i], b.e[i])
    [] IsObj(a) /\ ~Empty(a) ->
         /\ IsObj(b) /\ Len(a.m) = Len(b.m)
         /\ \A i \in 1..Len(a.m) :
              LET j == FindKey(b, a.m[i].n, 1)
              IN j # 0 /\ LooseEq(a.m[i].v, b.m[j].v)

EqIn(strict, a, b) == IF strict THEN DeepEq(a, b) ELSE LooseEq(a, b)
=============================================================================
