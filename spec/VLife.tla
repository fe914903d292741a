-------------------------------- MODULE VLife -------------------------------
(***************************************************************************)
(* Schema objects and the subschemas they own.  Slots 1..NS hold schema     *)
(* objects; each is built on one of three pairs of memory functions (0 the  *)
(* default ones, 1 and 2 counted).  Subschemas are known by handles, in the *)
(* order of their creation; handle 0 means the root of a schema, -1 its     *)
(* shared empty subschema, -2 a subschema that no schema owns.              *)
(*                                                                          *)
(* A mutating call with the empty subschema or one that is not owned raises *)
(* and changes nothing, so does one whose memory request is refused.        *)
(* Moving carries the contents, the handles and the memory functions along. *)
(* The histories, with what every call returns, are replayed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NS, MaxH, Steps, Rich      \* Rich: all attributes and constraint kinds

Slots == 1..NS
Kinds == IF Rich THEN {"number", "min5", "not", "a", "any"} ELSE {"number", "not"}
Attrs == IF Rich THEN {"id", "title", "description", "inv"} ELSE {"title", "inv"}
Texts == IF Rich THEN {"", "u", "another text"} ELSE {"u"}
Heaps == IF Rich THEN {0, 1, 2} ELSE {1}

Fresh == [id |-> "-", title |-> "-", description |-> "-", inv |-> "0", cons |-> <<>>]
NoSchema == [st |-> "none", heap |-> 0, own |-> {}, root |-> Fresh]

VARIABLES sch,     \* slot -> schema
          data,    \* handle -> contents
          nh,      \* next handle
          hist, fin
vars == <<sch, data, nh, hist, fin>>

Init == sch = [s \in Slots |-> NoSchema] /\ data = <<>> /\ nh = 1 /\ hist = <<>> /\ fin = FALSE

Live(s) == sch[s].st = "live"
Owned(h) == {s \in Slots : h \in sch[s].own}
Did(op, res) == hist' = Append(hist, [op |-> op, res |-> <<res, 0>>])
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o AsSeq(S \ {x})

\* handles that can be named: those of live schemas
Known == UNION {sch[s].own : s \in {t \in Slots : Live(t)}}
Targets(s) == {0, -1, -2} \cup Known
Accepts(s, t) == t = 0 \/ t \in sch[s].own
Node(s, t) == IF t = 0 THEN sch[s].root ELSE IF t < 0 THEN Fresh ELSE data[t]
With(s, t, d) == IF t = 0 THEN sch' = [sch EXCEPT ![s].root = d] /\ UNCHANGED data
                 ELSE data' = [data EXCEPT ![t] = d] /\ UNCHANGED sch

New(s, h, f) ==
  LET refused == h # 0 /\ f = 1
  IN /\ IF refused THEN UNCHANGED sch
        ELSE sch' = [sch EXCEPT ![s] = [st |-> "live", heap |-> h, own |-> {}, root |-> Fresh]]
     /\ UNCHANGED <<data, nh>>
     /\ Did(<<"new", s, h, f, IF refused THEN <<>> ELSE AsSeq(sch[s].own)>>, IF refused THEN "throw" ELSE "ok")

Create(s, f) ==
  LET refused == sch[s].heap # 0 /\ f = 1
  IN /\ Live(s) /\ nh <= MaxH
     /\ IF refused THEN UNCHANGED <<sch, data, nh>> /\ Did(<<"create", s, f>>, "throw")
        ELSE /\ sch' = [sch EXCEPT ![s].own = @ \cup {nh}]
             /\ data' = Append(data, Fresh) /\ nh' = nh + 1
             /\ Did(<<"create", s, f>>, nh)

\* children come later than their parent, so validation is finite
Children(s, t) == {-1} \cup {c \in sch[s].own : t <= 0 \/ c > t}
Add(s, t, k, c, f) ==
  LET refused == t = 0 /\ sch[s].heap # 0 /\ f = 1
      ok == Accepts(s, t) /\ ~refused
  IN /\ Live(s) /\ t \in Targets(s) /\ c \in Children(s, t) /\ (k \in {"number", "min5"} => c = -1)
     /\ f = 1 => t = 0
     /\ IF ok THEN With(s, t, [Node(s, t) EXCEPT !.cons = Append(@, <<k, c>>)]) ELSE UNCHANGED <<sch, data>>
     /\ UNCHANGED nh
     /\ Did(<<"add", s, t, k, c, f>>, IF ok THEN "ok" ELSE "throw")

Set(s, t, a, v) ==
  /\ Live(s) /\ t \in Targets(s)
  /\ IF Accepts(s, t) THEN With(s, t, [Node(s, t) EXCEPT ![a] = v]) ELSE UNCHANGED <<sch, data>>
  /\ UNCHANGED nh
  /\ Did(<<"set", s, t, a, v>>, IF Accepts(s, t) THEN "ok" ELSE "throw")

\* the new object takes everything over; what is left may only be assigned
\* to or destroyed
MoveConstruct(a, b) ==
  /\ Live(a) /\ a # b
  /\ sch' = [sch EXCEPT ![b] = sch[a], ![a] = [NoSchema EXCEPT !.st = "moved"]]
  /\ UNCHANGED <<data, nh>>
  /\ Did(<<"movec", a, b, AsSeq(sch[b].own)>>, "ok")
MoveAssign(a, b) ==
  /\ Live(a) /\ a # b /\ sch[b].st # "none"
  /\ sch' = [sch EXCEPT ![b] = sch[a], ![a] = [NoSchema EXCEPT !.st = "moved"]]
  /\ UNCHANGED <<data, nh>>
  /\ Did(<<"movea", a, b, AsSeq(sch[b].own)>>, "ok")
Destroy(s) ==
  /\ sch[s].st # "none"
  /\ sch' = [sch EXCEPT ![s] = NoSchema]
  /\ UNCHANGED <<data, nh>>
  /\ Did(<<"destroy", s, AsSeq(sch[s].own)>>, "ok")

(* ---- what a schema means ---- *)
Docs == <<"1", "7", "x", "{a:1}", "{a:x}">>
IsNumber(d) == d \in {"1", "7"}
Member(d) == IF d = "{a:1}" THEN "1" ELSE "x"
RECURSIVE Valid(_, _)
Valid(n, d) ==
  /\ n.inv = "0"
  /\ \A i \in 1..Len(n.cons) :
       LET k == n.cons[i][1]
           sub == IF n.cons[i][2] = -1 THEN Fresh ELSE data[n.cons[i][2]]
       IN CASE k = "number" -> IsNumber(d)
            [] k = "min5" -> ~IsNumber(d) \/ d = "7"
            [] k = "not" -> ~Valid(sub, d)
            [] k = "a" -> d \in {"1", "7", "x"} \/ Valid(sub, Member(d))
            [] k = "any" -> TRUE
VerdictText(n) ==
  LET ch(i) == IF Valid(n, Docs[i]) THEN "t" ELSE "f"
  IN ch(1) \o ch(2) \o ch(3) \o ch(4) \o ch(5)
Seen(n) == [id |-> n.id, title |-> n.title, description |-> n.description, inv |-> n.inv,
            n |-> Len(n.cons), apply |-> TRUE]
Look(s, t) == <<[op |-> <<"get", s, t>>, res |-> <<Seen(Node(s, t)), 0>>],
                [op |-> <<"validate", s, t>>, res |-> <<VerdictText(Node(s, t)), 0>>]>>
Peek(s, t) == /\ Live(s) /\ t \in sch[s].own \cup {0, -1}
              /\ hist' = hist \o Look(s, t) /\ UNCHANGED <<sch, data, nh>>

Step == /\ Len(hist) < Steps /\ UNCHANGED fin
        /\ \/ \E s \in Slots :
                \/ \E h \in Heaps, f \in {0, 1} : (f = 1 => h # 0) /\ New(s, h, f)
                \/ \E f \in {0, 1} : Create(s, f)
                \/ \E t \in Targets(s), k \in Kinds, f \in {0, 1} : \E c \in Children(s, t) : Add(s, t, k, c, f)
                \/ \E t \in Targets(s), a \in Attrs : \E v \in IF a = "inv" THEN {"0", "1"} ELSE Texts : Set(s, t, a, v)
                \/ Destroy(s)
                \/ Rich /\ \E t \in sch[s].own \cup {0, -1} : Peek(s, t)
           \/ \E a, b \in Slots : MoveConstruct(a, b) \/ MoveAssign(a, b)

\* at the end everything is looked at
RECURSIVE LookAll(_, _), LookSlots(_)
LookAll(s, ts) == IF ts = <<>> THEN <<>> ELSE Look(s, Head(ts)) \o LookAll(s, Tail(ts))
LookSlots(s) == IF s > NS THEN <<>>
                ELSE (IF Live(s) THEN LookAll(s, AsSeq(sch[s].own \cup {0, -1})) ELSE <<>>) \o LookSlots(s + 1)
Stop == /\ Len(hist) >= Steps /\ ~fin /\ fin' = TRUE
        /\ hist' = hist \o LookSlots(1)
        /\ UNCHANGED <<sch, data, nh>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

\* a subschema has one owner at most, and constraints stay within a schema
OneOwner == \A h \in 1..(nh - 1) : Cardinality(Owned(h)) <= 1
Inside == \A s \in Slots : \A t \in sch[s].own \cup {0} :
             \A i \in 1..Len(Node(s, t).cons) : Node(s, t).cons[i][2] \in sch[s].own \cup {-1}
Emptied == \A s \in Slots : sch[s].st # "live" => sch[s].own = {}

Emit == ~fin \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
