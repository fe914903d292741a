------------------------------ MODULE VSession ------------------------------
(***************************************************************************)
(* Validators in use.  A validator has a typing and a date-time mode, fixed  *)
(* when it is made, and keeps the regular expressions it has compiled.  The  *)
(* keeping is invisible: what a call returns is a function of the mode, the  *)
(* schema and the document alone (Says).  The model carries the kept         *)
(* expressions: a table from pattern text to meaning, filled as validations  *)
(* come across patterns; every entry maps a text to its own meaning.         *)
(* Copying a validator copies its modes and its table.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NV,      \* validators; validator i is made with mode ((i-1) % 4) + 1
          NS,      \* schemas
          ND,      \* documents
          Steps

ModeOf(i) == ((i - 1) % 4) + 1
\* schema s uses patterns s and s+1: neighbours share one
Patterns(s) == {s, s + 1}

VARIABLES mode,    \* validator -> mode
          table,   \* validator -> the patterns it has compiled, with their meaning
          kept,    \* calls that added to the results object that is kept
          hist, fin
vars == <<mode, table, kept, hist, fin>>

V == 1..NV
Init == mode = [i \in V |-> ModeOf(i)] /\ table = [i \in V |-> {}] /\ kept = 0 /\ hist = <<>> /\ fin = FALSE

Says(m, s, d) == <<"says", m, s, d>>
Did(op, res) == hist' = Append(hist, [op |-> op, res |-> res])

\* how: 0 no results object, 1 a new one, 2 one that is kept
Validate(i, s, d, how) ==
  /\ table' = [table EXCEPT ![i] = @ \cup {<<p, p>> : p \in Patterns(s)}]
  /\ kept' = IF how = 2 THEN kept + 1 ELSE kept
  /\ UNCHANGED mode
  /\ Did(<<"v", i - 1, s - 1, d - 1, how>>, Says(mode[i], s, d))
Copy(i, j) == /\ i # j /\ mode' = [mode EXCEPT ![j] = mode[i]] /\ table' = [table EXCEPT ![j] = table[i]]
              /\ UNCHANGED kept /\ Did(<<"copy", i - 1, j - 1>>, <<"-">>)
Fresh(i) == /\ mode' = [mode EXCEPT ![i] = ModeOf(i)] /\ table' = [table EXCEPT ![i] = {}]
            /\ UNCHANGED kept /\ Did(<<"fresh", i - 1>>, <<"-">>)

Step == /\ Len(hist) < Steps /\ UNCHANGED fin
        /\ \E i \in V : \/ \E s \in 1..NS, d \in 1..ND, how \in 0..2 : Validate(i, s, d, how)
                        \/ \E j \in V : Copy(i, j)
                        \/ Fresh(i)
Stop == Len(hist) = Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<mode, table, kept, hist>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

\* a pattern always means its own regular expression
OwnMeaning == \A i \in V : \A e \in table[i] : e[1] = e[2]
\* modes change by copying and by making anew only
ModesStay == [][\A i \in V : mode'[i] # mode[i] => (\E j \in V : Copy(j, i)) \/ Fresh(i)]_vars

Emit == ~fin \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
