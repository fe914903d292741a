-------------------------------- MODULE VUri --------------------------------
(***************************************************************************)
(* URI references as code point (or byte) sequences: RFC 3986 section 5.2   *)
(* reference resolution, and the split of a JSON Reference at '#'.          *)
(***************************************************************************)
EXTENDS VStr

Slash == 47
Hash  == 35
Quest == 63
Dot   == 46
ColonC == 58
DotDot == <<46, 46>>

\* first index >= k whose character is in the set cs, or Len(s)+1
RECURSIVE FirstOf(_, _, _)
FirstOf(s, cs, k) == IF k > Len(s) THEN k ELSE IF s[k] \in cs THEN k ELSE FirstOf(s, cs, k + 1)

IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

\* index of the ':' that ends a scheme, or 0
SchemeEnd(u) ==
  LET k == FirstOf(u, {ColonC, Slash, Hash, Quest}, 1)
  IN IF k > 1 /\ k <= Len(u) /\ u[k] = ColonC /\ IsAlpha(u[1]) THEN k ELSE 0

\* "a URI has a scheme" decides absolute versus relative
HasScheme(u) == SchemeEnd(u) > 0

Split(u) ==
  LET n  == Len(u)
      sc == SchemeEnd(u)
      a0 == sc + 1
      hasAuth == a0 + 1 <= n /\ u[a0] = Slash /\ u[a0 + 1] = Slash
      a1 == IF hasAuth THEN FirstOf(u, {Slash, Quest, Hash}, a0 + 2) ELSE a0
      p1 == FirstOf(u, {Quest, Hash}, a1)
      hasQ == p1 <= n /\ u[p1] = Quest
      q1 == IF hasQ THEN FirstOf(u, {Hash}, p1) ELSE p1
  IN [pre   |-> SubSeq(u, 1, a1 - 1),          \* scheme and authority
      auth  |-> hasAuth,
      path  |-> SubSeq(u, a1, p1 - 1),
      query |-> SubSeq(u, p1, q1 - 1),         \* with its '?'
      frag  |-> SubSeq(u, q1, n)]              \* with its '#'

RECURSIVE SplitOn(_, _, _, _)
\* pieces of s between occurrences of c; cur is the current piece
SplitOn(s, c, k, cur) ==
  IF k > Len(s) THEN <<cur>>
  ELSE IF s[k] = c THEN <<cur>> \o SplitOn(s, c, k + 1, <<>>)
  ELSE SplitOn(s, c, k + 1, Append(cur, s[k]))
Pieces(s, c) == SplitOn(s, c, 1, <<>>)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, c, k) ==
  IF k > Len(ss) THEN <<>>
  ELSE IF k = Len(ss) THEN ss[k] ELSE ss[k] \o <<c>> \o JoinFrom(ss, c, k + 1)
Join(ss, c) == JoinFrom(ss, c, 1)

\* remove "." and ".." segments; abs: the path starts with '/'
RECURSIVE DotFold(_, _, _, _)
DotFold(segs, k, out, abs) ==
  IF k > Len(segs) THEN out
  ELSE LET last == k = Len(segs)
           s == segs[k]
           next ==
             IF s = <<Dot>> THEN (IF last THEN Append(out, <<>>) ELSE out)
             ELSE IF s = DotDot
                  THEN LET popped == IF out # <<>> /\ out[Len(out)] # DotDot
                                     THEN Take(out, Len(out) - 1)
                                     ELSE IF abs THEN out ELSE Append(out, s)
                       IN IF last /\ popped # Append(out, s) THEN Append(popped, <<>>) ELSE popped
             ELSE Append(out, s)
       IN DotFold(segs, k + 1, next, abs)

RemoveDots(path) ==
  IF path = <<>> THEN <<>>
  ELSE LET abs == path[1] = Slash
           segs == Pieces(IF abs THEN Drop(path, 1) ELSE path, Slash)
           out == DotFold(segs, 1, <<>>, abs)
       IN (IF abs THEN <<Slash>> ELSE <<>>) \o Join(out, Slash)

\* section 5.2.3
Merge(base, rpath) ==
  IF base.auth /\ base.path = <<>> THEN <<Slash>> \o rpath
  ELSE LET k == LastIndex(base.path, Slash, Len(base.path))
       IN Take(base.path, k) \o rpath

\* section 5.2.2, for references without an authority of their own.
\* An absolute reference is returned as it is, and so is the base for an
\* empty reference.
Resolve(baseText, ref) ==
  IF ref = <<>> THEN baseText
  ELSE IF HasScheme(ref) THEN ref
  ELSE LET b == Split(baseText)
           r == Split(ref)
       IN IF r.path = <<>>
          THEN b.pre \o (IF b.auth /\ b.path = <<>> THEN <<Slash>> ELSE b.path)
               \o r.query \o r.frag
          ELSE LET p == IF r.path[1] = Slash THEN r.path ELSE Merge(b, r.path)
               IN b.pre \o RemoveDots(p) \o r.query \o r.frag

(* ---- the domain in which resolution is specified (see uri.md) ---- *)

\* "scheme://" in front
HasSlashes(u) == LET k == SchemeEnd(u)
                 IN k > 0 /\ k + 2 <= Len(u) /\ u[k + 1] = Slash /\ u[k + 2] = Slash
SlashSlash(u) == \E k \in 1..(Len(u) - 1) : u[k] = Slash /\ u[k + 1] = Slash
\* a URI with a scheme is written with "://", and nothing else contains "//"
AbsDomain(u) == IF HasSlashes(u) THEN TRUE ELSE ~HasScheme(u) /\ ~SlashSlash(u)
DotSeg(s) == s = <<Dot>> \/ s = DotDot
LastSegOf(p) == LET ps == Pieces(p, Slash) IN ps[Len(ps)]
UrnC(u) == Len(u) > 4 /\ u[1] \in {85, 117} /\ u[2] \in {82, 114} /\ u[3] \in {78, 110} /\ u[4] = ColonC
\* a plain URN: urn:name:parts, all letters and digits
PlainUrn(u) == /\ UrnC(u)
               /\ LET ps == Pieces(u, ColonC)
                  IN /\ Len(ps) >= 3
                     /\ \A j \in 2..Len(ps) : ps[j] # <<>> /\ \A k \in 1..Len(ps[j]) : IsAlpha(ps[j][k]) \/ IsDigit(ps[j][k])
                     /\ Len(ps[2]) >= 2 /\ Len(ps[2]) <= 20 /\ ps[2] # <<117, 114, 110>>
\* a scope without a scheme is a path
RelBase(b) == b # <<>> /\ ~HasScheme(b) /\ ~SlashSlash(b) /\ ~UrnC(b)
BaseDomain(b) == RelBase(b) \/
  /\ HasSlashes(b)
  /\ LET s == Split(b)
     IN /\ Len(s.pre) > SchemeEnd(b) + 2
        /\ (s.path = <<>> => s.query = <<>> /\ s.frag = <<>>)
        /\ ~SlashSlash(s.path)
UriDomain(b, r) ==
  \/ HasSlashes(r)
  \/ PlainUrn(r)
  \/ r = <<>>
  \/ /\ BaseDomain(b)
     /\ AbsDomain(r)
     /\ ~UrnC(r)
     /\ LET s == Split(r)
        IN /\ ~DotSeg(LastSegOf(s.path))
           /\ (s.path = <<>> /\ s.query = <<>> => Split(b).query = <<>>)
           \* (a relative path with nothing left is left open)
           /\ (RelBase(b) /\ s.path # <<>> => Split(Resolve(b, s.path)).path # <<>>)

\* a JSON Reference is a document URI and a fragment
RefSplit(r) ==
  LET h == IndexFrom(r, Hash, 1)
  IN IF h = 0 THEN [hasU |-> TRUE, u |-> r, hasF |-> FALSE, f |-> <<>>]
     ELSE [hasU |-> h > 1, u |-> Take(r, h - 1), hasF |-> TRUE, f |-> Drop(r, h)]
=============================================================================
