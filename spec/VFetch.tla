------------------------------- MODULE VFetch -------------------------------
(***************************************************************************)
(* The protocol between populateSchema and the two callbacks it is given to *)
(* fetch and free remote documents.  Document 0 is the main schema, 1..NR   *)
(* the remote ones; g[i] is the set of remote documents that document i     *)
(* refers to, f[i] what happens when document i is asked for:               *)
(*   ok       a well-formed document        bad      one that does not load *)
(*   missing  the callback returns null     throw    the callback throws    *)
(* Environment (g, f) is chosen at the start; the order in which references *)
(* are met is left open.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NR, Faults
Rem == 1..NR
All == 0..NR

VARIABLES g, f,
          held,    \* documents fetched and not freed
          asked,   \* documents asked for
          todo,    \* references met but not followed
          freed,   \* how often each was freed
          st       \* "run", "ok", "err" (unwinding), "done"
          , out
vars == <<g, f, held, asked, todo, freed, st, out>>

Init == /\ g \in [All -> SUBSET Rem] /\ f \in [Rem -> Faults]
        /\ held = {} /\ asked = {} /\ todo = g[0] /\ freed = [i \in Rem |-> 0]
        /\ st = "run" /\ out = "?"

\* a reference to a document that is already there is served from the cache
Cached(i) == /\ st = "run" /\ i \in todo /\ i \in held
             /\ todo' = todo \ {i} /\ UNCHANGED <<g, f, held, asked, freed, st, out>>

Fetch(i) ==
  /\ st = "run" /\ i \in todo /\ i \notin held
  /\ asked' = asked \cup {i}
  /\ CASE f[i] = "ok" -> /\ held' = held \cup {i}
                         /\ todo' = (todo \ {i}) \cup (g[i] \ {i})
                         /\ UNCHANGED <<st, out>>
       [] f[i] = "bad" -> /\ held' = held \cup {i} /\ todo' = {} /\ st' = "free" /\ out' = "err"
       [] OTHER -> /\ held' = held /\ todo' = {} /\ st' = "free" /\ out' = "err"
  /\ UNCHANGED <<g, f, freed>>

Finish == /\ st = "run" /\ todo = {} /\ st' = "free" /\ out' = "ok"
          /\ UNCHANGED <<g, f, held, asked, todo, freed>>

Free(i) == /\ st = "free" /\ i \in held
           /\ held' = held \ {i} /\ freed' = [freed EXCEPT ![i] = @ + 1]
           /\ UNCHANGED <<g, f, asked, todo, st, out>>

Return == /\ st = "free" /\ held = {} /\ st' = "done"
          /\ UNCHANGED <<g, f, held, asked, todo, freed, out>>

Idle == st = "done" /\ UNCHANGED vars
Next == (\E i \in Rem : Cached(i) \/ Fetch(i) \/ Free(i)) \/ Finish \/ Return \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {g[i] : i \in {j \in S : f[j] = "ok"}}
            IN IF T = S THEN S ELSE Reach(T)
Needed == Reach(g[0])

TypeOK == held \subseteq asked /\ asked \subseteq Rem /\ st \in {"run", "free", "done"}
NeverTwice == \A i \in asked : i \in todo => i \in held     \* what is there is not asked for again
FreedOnce == \A i \in Rem : freed[i] <= 1
CleanEnd == st = "done" => /\ held = {}
                           /\ \A i \in Rem : (freed[i] = 1) <=> (i \in asked /\ f[i] \in {"ok", "bad"})
OutcomeRight == st = "done" =>
   /\ (out = "ok") = (\A i \in Needed : f[i] = "ok")
   /\ asked \subseteq Needed
   /\ out = "ok" => asked = Needed
Terminates == <>(st = "done")

\* one line per environment: the outcome does not depend on the order, what
\* is asked for does only when it fails
Emit == st # "done" \/ PrintT(<<"BEHAVIOUR", ToJson([g |-> [i \in 1..(NR + 1) |-> g[i - 1]], f |-> f, out |-> out,
                                                   asked |-> IF out = "ok" THEN asked ELSE {}])>>)
=============================================================================
