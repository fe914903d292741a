------------------------------- MODULE VQueue -------------------------------
(***************************************************************************)
(* The queue of validation errors.  NQ result objects; errors are pushed    *)
(* with the path at which they happened or as ready-made records, popped,   *)
(* looked at by iteration, and whole objects are assigned to each other.    *)
(* What each call returns is part of the history, which is replayed.        *)
(* A path is a sequence of <<kind, name>>, kind 1 for a member and 0 for an *)
(* element; names are sequences of bytes.                                   *)
(***************************************************************************)
EXTENDS VStr, TLC, Json

CONSTANTS NQ, Steps, NPaths

\* paths with names that need escapes, are empty, or look like pointers
PathTable ==
  << << >>,
     << <<1, <<97>>>> >>,                                        \* a
     << <<0, <<48>>>>, <<1, <<126>>>> >>,                        \* [0] ~
     << <<1, <<47>>>>, <<1, <<>>>>, <<0, <<49,50>>>> >>,         \* / "" [12]
     << <<1, <<126,49>>>>, <<1, <<126,48,47>>>> >>,              \* ~1 ~0/
     << <<1, <<34,93>>>>, <<1, <<195,169>>>>, <<1, <<0,37>>>> >>,\* "] e-acute NUL%
     << <<1, <<45>>>>, <<0, <<48>>>>, <<0, <<48>>>>, <<1, <<48>>>>, <<1, <<47,47,126,126>>>> >> >>

RECURSIVE PtrText(_), CxText(_)
PtrText(p) == IF p = <<>> THEN <<>> ELSE <<47>> \o EscapeToken(Head(p)[2]) \o PtrText(Tail(p))
Seg(s) == IF s[1] = 1 THEN <<91,34>> \o s[2] \o <<34,93>> ELSE <<91>> \o s[2] \o <<93>>
CxText(p) == IF p = <<>> THEN <<>> ELSE <<Seg(Head(p))>> \o CxText(Tail(p))
Root == <<60,114,111,111,116,62>>
Ready == [p |-> <<47,112>>, x |-> << <<99,49>>, <<99,50>> >>]
Untouched == <<117,110,116,111,117,99,104,101,100>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

\* an entry of the queue: path number (0: ready-made) and serial number
Show(e) == IF e[1] = 0 THEN <<Ready.p, Ready.x, Dec(e[2])>>
           ELSE <<PtrText(PathTable[e[1]]), <<Root>> \o CxText(PathTable[e[1]]), Dec(e[2])>>

VARIABLES q, n, hist, fin
vars == <<q, n, hist, fin>>

Init == q = [o \in 1..NQ |-> <<>>] /\ n = 1 /\ hist = <<>> /\ fin = FALSE
Did(op, res) == hist' = Append(hist, [op |-> op, res |-> res])

Push(o, p) == /\ q' = [q EXCEPT ![o] = Append(@, <<p, n>>)] /\ n' = n + 1
              /\ Did(<<"push", o, PathTable[p], Dec(n)>>, Len(q[o]) + 1)
PushReady(o) == /\ q' = [q EXCEPT ![o] = Append(@, <<0, n>>)] /\ n' = n + 1
                /\ Did(<<"pushe", o, 0, Dec(n)>>, Len(q[o]) + 1)
Pop(o) == /\ UNCHANGED n
          /\ IF q[o] = <<>>
             THEN UNCHANGED q /\ Did(<<"pop", o>>, <<FALSE, << <<>>, <<>>, Untouched>>, 0>>)
             ELSE q' = [q EXCEPT ![o] = Tail(@)] /\ Did(<<"pop", o>>, <<TRUE, Show(Head(q[o])), Len(q[o]) - 1>>)
Iter(o) == /\ UNCHANGED <<q, n>>
           /\ Did(<<"iter", o>>, <<[k \in 1..Len(q[o]) |-> Show(q[o][k])], Len(q[o])>>)
Copy(a, b) == /\ q' = [q EXCEPT ![b] = q[a]] /\ UNCHANGED n
              /\ Did(<<"copy", a, b>>, Len(q[a]))

Step == Len(hist) < Steps /\ UNCHANGED fin /\ \E o \in 1..NQ :
          \/ \E p \in 1..NPaths : Push(o, p)
          \/ PushReady(o) \/ Pop(o) \/ Iter(o)
          \/ \E b \in 1..NQ : b # o /\ Copy(o, b)
\* a history is complete
Stop == Len(hist) = Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<q, n, hist>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

\* first in first out: serial numbers only grow along a queue, and what was
\* popped from a queue that was never assigned to comes in the order pushed
Ordered == \A o \in 1..NQ : \A i, j \in 1..Len(q[o]) : i < j => q[o][i][2] < q[o][j][2]
Pops(o) == SelectSeq(hist, LAMBDA h : h.op[1] = "pop" /\ h.op[2] = o /\ h.res[1])
Pushes(o) == SelectSeq(hist, LAMBDA h : h.op[1] \in {"push", "pushe"} /\ h.op[2] = o)
Assigned(o) == \E k \in 1..Len(hist) : hist[k].op[1] = "copy" /\ hist[k].op[3] = o
Fifo == \A o \in 1..NQ : ~Assigned(o) =>
          /\ Len(Pops(o)) + Len(q[o]) = Len(Pushes(o))
          /\ \A k \in 1..Len(Pops(o)) : Pops(o)[k].res[2][3] = Pushes(o)[k].op[4]

Emit == ~fin \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
