------------------------------- MODULE VShare -------------------------------
(***************************************************************************)
(* Several threads using the library at the same time.  A call takes time:   *)
(* it begins and it ends, and calls of different threads may overlap.  What  *)
(* the library promises is which objects a call touches (Reads, Writes):     *)
(* loading writes its parser and its schema only, validating writes its      *)
(* validator and its results only and reads the schema and the document.     *)
(* What the caller owes (Free) is that no two overlapping calls touch one    *)
(* object of which one of them is a writer.  Then nothing is touched by two  *)
(* calls at once (NoRace), and every call returns what it would have         *)
(* returned alone (Says, Loads).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT,      \* threads
          NV,      \* validators, of modes 1..4 in turn, handed from thread to thread
          NS,      \* places for a schema
          NX,      \* schema texts; text 0 does not load
          ND,      \* documents, read by all threads
          Calls    \* in one history

VARIABLES busy,    \* thread -> the call under way, <<>> if none
          text,    \* place -> the text of the schema there, -1 if none
          hist,    \* <<"b", t, call>> and <<"e", t, result>>
          n, fin
vars == <<busy, text, hist, n, fin>>

T == 1..NT
Init == busy = [t \in T |-> <<>>] /\ text = [s \in 1..NS |-> -1] /\ hist = <<>> /\ n = 0 /\ fin = FALSE

Reads(c) == IF c[1] = "val" THEN {<<"schema", c[3]>>, <<"doc", c[4]>>}
            ELSE IF c[1] = "copy" THEN {<<"validator", c[2]>>}
            ELSE {}
Writes(t, c) == IF c[1] = "val" THEN {<<"validator", c[2]>>, <<"results", t>>}
                ELSE IF c[1] = "load" THEN {<<"schema", c[2]>>, <<"parser", t>>}
                ELSE IF c[1] = "drop" THEN {<<"schema", c[2]>>}
                ELSE {<<"copy", t>>}
Touches(t, c) == Reads(c) \cup Writes(t, c)

\* the caller's part
Apart(t, c) == \A u \in T \ {t} : busy[u] # <<>> =>
                 Writes(t, c) \cap Touches(u, busy[u]) = {} /\ Writes(u, busy[u]) \cap Touches(t, c) = {}
Begin(t, c) == /\ busy[t] = <<>> /\ n < Calls /\ Apart(t, c)
               /\ busy' = [busy EXCEPT ![t] = c] /\ n' = n + 1
               /\ hist' = Append(hist, <<"b", t - 1, c>>)
               /\ UNCHANGED <<text, fin>>

Mode(i) == ((i - 1) % 4) + 1
Result(c) == IF c[1] = "val" THEN <<"says", Mode(c[2]), text[c[3]], c[4]>>
             ELSE IF c[1] = "load" THEN <<"loads", c[3]>>
             ELSE <<"-">>
End(t) == /\ busy[t] # <<>>
          /\ text' = IF busy[t][1] = "load" /\ busy[t][3] > 0 THEN [text EXCEPT ![busy[t][2]] = busy[t][3]]
                     ELSE IF busy[t][1] = "drop" THEN [text EXCEPT ![busy[t][2]] = -1]
                     ELSE text
          /\ hist' = Append(hist, <<"e", t - 1, Result(busy[t])>>)
          /\ busy' = [busy EXCEPT ![t] = <<>>]
          /\ UNCHANGED <<n, fin>>

Start(t) == \/ \E i \in 1..NV, s \in 1..NS, d \in 1..ND, how \in 0..1 : text[s] # -1 /\ Begin(t, <<"val", i, s, d, how>>)
            \/ \E s \in 1..NS, x \in 0..NX : text[s] = -1 /\ Begin(t, <<"load", s, x>>)
            \/ \E s \in 1..NS : text[s] # -1 /\ Begin(t, <<"drop", s>>)
            \* a copy is made, used by nobody else, and thrown away
            \/ \E i \in 1..NV : Begin(t, <<"copy", i>>)
Idle == \A t \in T : busy[t] = <<>>
Stop == n = Calls /\ Idle /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<busy, text, hist, n>>
Next == (\E t \in T : ~fin /\ (Start(t) \/ End(t))) \/ Stop
Spec == Init /\ [][Next]_vars

NoRace == \A t, u \in T : t # u /\ busy[t] # <<>> /\ busy[u] # <<>> => Writes(t, busy[t]) \cap Touches(u, busy[u]) = {}
\* a schema does not change while somebody looks at it
Steady == [][\A t \in T : busy[t] # <<>> /\ busy[t][1] = "val" => text'[busy[t][3]] = text[busy[t][3]]]_vars

Emit == ~fin \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
