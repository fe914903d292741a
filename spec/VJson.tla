------------------------------- MODULE VJson --------------------------------
(***************************************************************************)
(* JSON texts (RFC 8259) as sequences of code points, and the values they   *)
(* denote.  Val(t, i) reads a value that begins at position i and gives     *)
(* [ok, v, j], j being the position after it.  A number also keeps the text *)
(* it was written as, w.  Held is what a property tree keeps of a value.    *)
(***************************************************************************)
EXTENDS VValue

No(i) == [ok |-> FALSE, v |-> [t |-> "n"], j |-> i]
Yes(v, j) == [ok |-> TRUE, v |-> v, j |-> j]
At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE -1

RECURSIVE Skip(_, _)
Skip(t, i) == IF At(t, i) \in {32, 9, 10, 13} THEN Skip(t, i + 1) ELSE i

Word(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
NullText == <<110,117,108,108>>

(* ---- numbers ---- *)
NumAt(t, i0) ==
  LET ng == IF At(t, i0) = 45 THEN 1 ELSE 0
      i  == i0 + ng
      a  == IF At(t, i) = 48 THEN i + 1 ELSE RunEnd(t, i)       \* after the integer digits
      fr == At(t, a) = 46
      b  == IF fr THEN RunEnd(t, a + 1) ELSE a
      ex == At(t, b) \in {69, 101}
      sg == ex /\ At(t, b + 1) \in {43, 45}
      c0 == b + 1 + (IF sg THEN 1 ELSE 0)
      c  == IF ex THEN RunEnd(t, c0) ELSE b
      ok == a > i /\ (fr => b > a + 1) /\ (ex => c > c0)
      ev == IF ex THEN DecVal(t, c0, c - 1, 0) ELSE 0
      x  == MkNum(ng, Digs(t, i, a - 1), IF fr THEN Digs(t, a + 1, b - 1) ELSE <<>>,
                  IF sg /\ At(t, b + 1) = 45 THEN 0 - ev ELSE ev)
  IN IF ok THEN Yes([t |-> IF fr \/ ex THEN "d" ELSE "i", ng |-> x.ng, dg |-> x.dg, ex |-> x.ex,
                     w |-> SubSeq(t, i0, c - 1)], c)
     ELSE No(i0)

(* ---- strings ---- *)
HexDigit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55
          ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
Hex4Ok(t, i) == \A k \in 0..3 : HexDigit(At(t, i + k)) >= 0
Hex4(t, i) == ((HexDigit(t[i]) * 16 + HexDigit(t[i + 1])) * 16 + HexDigit(t[i + 2])) * 16 + HexDigit(t[i + 3])
Simple(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
               [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
High(u) == u >= 55296 /\ u <= 56319
Low(u) == u >= 56320 /\ u <= 57343

\* after the opening quotation mark; lone halves of a pair stand for themselves
RECURSIVE Chars(_, _, _)
Chars(t, i, acc) ==
  LET c == At(t, i)
  IN IF c = 34 THEN Yes([t |-> "s", c |-> acc, s |-> acc], i + 1)
     ELSE IF c < 32 THEN No(i)
     ELSE IF c # 92 THEN Chars(t, i + 1, Append(acc, c))
     ELSE IF At(t, i + 1) # 117
          THEN IF Simple(At(t, i + 1)) < 0 THEN No(i) ELSE Chars(t, i + 2, Append(acc, Simple(t[i + 1])))
     ELSE IF ~Hex4Ok(t, i + 2) THEN No(i)
     ELSE LET u == Hex4(t, i + 2)
              pair == High(u) /\ At(t, i + 6) = 92 /\ At(t, i + 7) = 117 /\ Hex4Ok(t, i + 8) /\ Low(Hex4(t, i + 8))
          IN IF pair THEN Chars(t, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (Hex4(t, i + 8) - 56320)))
             ELSE Chars(t, i + 6, Append(acc, u))

(* ---- values ---- *)
RECURSIVE Val(_, _), Elements(_, _, _), MembersAt(_, _, _)
Val(t, i) ==
  LET c == At(t, i)
  IN CASE c = 123 -> IF At(t, Skip(t, i + 1)) = 125 THEN Yes([t |-> "o", m |-> <<>>], Skip(t, i + 1) + 1)
                     ELSE MembersAt(t, Skip(t, i + 1), <<>>)
       [] c = 91  -> IF At(t, Skip(t, i + 1)) = 93 THEN Yes([t |-> "a", e |-> <<>>], Skip(t, i + 1) + 1)
                     ELSE Elements(t, Skip(t, i + 1), <<>>)
       [] c = 34  -> Chars(t, i + 1, <<>>)
       [] Word(t, i, NullText)  -> Yes([t |-> "n"], i + 4)
       [] Word(t, i, TrueText)  -> Yes([t |-> "b", b |-> TRUE], i + 4)
       [] Word(t, i, FalseText) -> Yes([t |-> "b", b |-> FALSE], i + 5)
       [] OTHER -> NumAt(t, i)
Elements(t, i, acc) ==
  LET x == Val(t, i)
      k == Skip(t, x.j)
  IN IF ~x.ok THEN No(i)
     ELSE IF At(t, k) = 93 THEN Yes([t |-> "a", e |-> Append(acc, x.v)], k + 1)
     ELSE IF At(t, k) = 44 THEN Elements(t, Skip(t, k + 1), Append(acc, x.v))
     ELSE No(i)
MembersAt(t, i, acc) ==
  IF At(t, i) # 34 THEN No(i)
  ELSE LET n == Chars(t, i + 1, <<>>)
           k == Skip(t, n.j)
       IN IF ~n.ok \/ At(t, k) # 58 THEN No(i)
          ELSE LET x == Val(t, Skip(t, k + 1))
                   l == Skip(t, x.j)
                   m == Append(acc, [n |-> n.v.c, c |-> n.v.c, v |-> x.v])
               IN IF ~x.ok THEN No(i)
                  ELSE IF At(t, l) = 125 THEN Yes([t |-> "o", m |-> m], l + 1)
                  ELSE IF At(t, l) = 44 THEN MembersAt(t, Skip(t, l + 1), m)
                  ELSE No(i)

\* a JSON text: one value and white space
Text(t) == LET x == Val(t, Skip(t, 1))
           IN IF x.ok /\ Skip(t, x.j) = Len(t) + 1 THEN x ELSE No(1)

\* position at is white space between tokens: there, it can be repeated as often
\* as one likes (texts without escapes)
Blank(t, at) ==
  /\ At(t, at) \in {32, 9, 10, 13}
  /\ Cardinality({k \in 1..at : t[k] = 34}) % 2 = 0
  /\ \A k \in 1..Len(t) : t[k] # 92
  /\ LET a == Text(t)
         b == Text(SubSeq(t, 1, at) \o SubSeq(t, at, Len(t)))
     IN a.ok = b.ok /\ (a.ok => a.v = b.v)

\* no value begins here, or it never ends: nothing a lenient reader would take either
Hopeless(t) ==
  LET i == Skip(t, 1)
      c == At(t, i)
      lacks(x) == \A k \in (i + 1)..Len(t) : t[k] # x
  IN \/ c \in {-1, 93, 125, 44, 58, 92, 101}
     \/ c = 123 /\ lacks(125)
     \/ c = 91 /\ lacks(93)
     \/ c = 34 /\ lacks(34)

Scalar(v) == ~IsArr(v) /\ ~IsObj(v)

\* no object has two members of one name
RECURSIVE Distinct(_)
Distinct(v) ==
  CASE IsArr(v) -> \A i \in 1..Len(v.e) : Distinct(v.e[i])
    [] IsObj(v) -> /\ \A i, j \in 1..Len(v.m) : i # j => v.m[i].c # v.m[j].c
                   /\ \A i \in 1..Len(v.m) : Distinct(v.m[i].v)
    [] OTHER -> TRUE

(* ---- containers that keep text ---- *)
Str(c) == [t |-> "s", c |-> c, s |-> c]
RECURSIVE Held(_, _)
Held(v, how) ==
  LET a(e) == [t |-> "a", e |-> e]
  IN CASE IsNum(v)  -> Str(v.w)
       [] IsBool(v) -> Str(AsStr(v))
       [] IsNull(v) -> IF how = "ptree" THEN Str(NullText) ELSE v
       [] IsStr(v)  -> IF how = "ptree" /\ v.c = <<>> THEN a(<<>>) ELSE v
       [] IsArr(v)  -> a([i \in 1..Len(v.e) |-> Held(v.e[i], how)])
       [] OTHER ->
            LET m == [i \in 1..Len(v.m) |-> [v.m[i] EXCEPT !.v = Held(v.m[i].v, how)]]
            IN IF how = "ptree" /\ \A i \in 1..Len(m) : m[i].c = <<>> THEN a([i \in 1..Len(m) |-> m[i].v])
               ELSE [v EXCEPT !.m = m]
=============================================================================
