------------------------------ MODULE VLoader ------------------------------
(***************************************************************************)
(* The loader as a state machine over reference graphs.  A graph has N      *)
(* schema positions, 1 being the root; each is a plain schema (leaf), a     *)
(* reference to another position (ref), or a schema that applies another    *)
(* position, through a reference, to a member (prop), to the elements       *)
(* (item) or one to a member and one to the elements (both).                *)
(* Loading keeps a registry from positions to the subschema objects built   *)
(* for them, creates an object before it fills it in, and follows chains of *)
(* references while remembering them.                                       *)
(*                                                                          *)
(* Checked: loading terminates; it fails exactly when a chain of references *)
(* reachable from the root closes; otherwise the graph of subschema objects *)
(* unfolds to the same infinite tree as the schema.  The distinct graphs    *)
(* with their outcome are printed and replayed into the library.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,
          Shape   \* "any", "named" (any, positions numbered as they are met), "chain" (no branches, all positions met in order)
Pos == 1..N
One == {<<p>> : p \in Pos}
Nodes == [k : {"leaf"}, t : {<<>>}] \cup [k : {"ref", "prop", "item"}, t : One] \cup [k : {"both"}, t : {<<p, q>> : p, q \in Pos}]

VARIABLES g,      \* the schema
          reg,    \* position -> object, 0 for none
          obj,    \* the objects: [k, c] with c the objects of the children, 0 while not filled in
          work,   \* stack of <<o, j>>: object o waits for its child j
          at,     \* the position being looked at, 0 for none
          chain,  \* references followed on the way there
          st
vars == <<g, reg, obj, work, at, chain, st>>

RECURSIVE Met(_, _, _), MetIn(_, _)
MetIn(ts, seq) == IF ts = <<>> THEN seq
                  ELSE MetIn(Tail(ts), IF \E i \in 1..Len(seq) : seq[i] = Head(ts) THEN seq ELSE Append(seq, Head(ts)))
Met(f, seq, i) == IF i > Len(seq) THEN seq ELSE Met(f, MetIn(f[seq[i]].t, seq), i + 1)
Kinds == {"leaf", "ref", "prop", "item"}
Chains == {[p \in Pos |-> [k |-> ks[p], t |-> IF ks[p] = "leaf" THEN <<>> ELSE IF p < N THEN <<p + 1>> ELSE <<b>>]] :
             ks \in {f \in [Pos -> Kinds] : \A p \in 1..(N - 1) : f[p] # "leaf"}, b \in Pos}
Graphs == IF Shape = "chain" THEN Chains
          ELSE IF Shape = "named" THEN {f \in [Pos -> Nodes] : Met(f, <<1>>, 1) = [p \in Pos |-> p]}
          ELSE [Pos -> Nodes]

Init == /\ g \in Graphs
        /\ reg = [p \in Pos |-> 0] /\ obj = <<>> /\ work = <<>>
        /\ at = 1 /\ chain = <<>> /\ st = "run"

InChain(p) == \E i \in 1..Len(chain) : chain[i] = p

\* the object o for the position being looked at is known: give it to the
\* objects that wait and go on with the next one
Regd(o, self) == [p \in Pos |-> IF p = self \/ InChain(p) THEN o ELSE reg[p]]

Resolve(o, objs, self) ==
  /\ reg' = Regd(o, self)
  /\ chain' = <<>>
  /\ IF work = <<>>
     THEN /\ obj' = objs /\ at' = 0 /\ work' = work
     ELSE LET w == work[Len(work)]
          IN /\ obj' = [objs EXCEPT ![w[1]].c[w[2]] = o]
             /\ at' = 0 /\ work' = SubSeq(work, 1, Len(work) - 1)
  /\ st' = "run" /\ UNCHANGED g

Follow == /\ st = "run" /\ at # 0 /\ reg[at] = 0 /\ g[at].k = "ref"
          /\ IF InChain(at)
             THEN /\ st' = "err" /\ UNCHANGED <<g, reg, obj, work, at, chain>>
             ELSE /\ chain' = Append(chain, at) /\ at' = g[at].t[1]
                  /\ UNCHANGED <<g, reg, obj, work, st>>

Hit == /\ st = "run" /\ at # 0 /\ reg[at] # 0
       /\ Resolve(reg[at], obj, at)

\* create and register an object before its child is visited
Create == /\ st = "run" /\ at # 0 /\ reg[at] = 0 /\ g[at].k # "ref"
          /\ Resolve(Len(obj) + 1, Append(obj, [k |-> g[at].k, c |-> [j \in 1..Len(g[at].t) |-> 0], p |-> at]), at)

\* visit a child that is missing: the first one of the youngest object
Missing(o) == {j \in 1..Len(obj[o].c) : obj[o].c[j] = 0}
Open == {o \in 1..Len(obj) : Missing(o) # {}}
Visit == /\ st = "run" /\ at = 0
         /\ IF Open = {} THEN st' = "ok" /\ UNCHANGED <<g, reg, obj, work, at, chain>>
            ELSE LET o == CHOOSE x \in Open : \A y \in Open : y <= x
                     j == CHOOSE x \in Missing(o) : \A y \in Missing(o) : x <= y
                 IN /\ work' = Append(work, <<o, j>>) /\ at' = g[obj[o].p].t[j]
                    /\ UNCHANGED <<g, reg, obj, chain, st>>

Done == st # "run" /\ UNCHANGED vars
Next == Follow \/ Hit \/ Create \/ Visit \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what it should do ---- *)
RECURSIVE End(_, _)
\* the plain position that a chain of references ends at, 0 if it closes
End(p, n) == IF g[p].k # "ref" THEN p ELSE IF n = 0 THEN 0 ELSE End(g[p].t[1], n - 1)

RECURSIVE Grow(_)
Grow(S) == LET T == S \cup UNION {{g[p].t[j] : j \in 1..Len(g[p].t)} : p \in S}
           IN IF T = S THEN S ELSE Grow(T)
Closed == \E p \in Grow({1}) : End(p, N) = 0

\* the tree below a position / an object, to a depth
RECURSIVE TreeP(_, _), TreeO(_, _)
TreeP(p, d) == LET e == End(p, N)
               IN IF d = 0 THEN <<g[e].k>> ELSE <<g[e].k, [j \in 1..Len(g[e].t) |-> TreeP(g[e].t[j], d - 1)]>>
TreeO(o, d) == IF d = 0 THEN <<obj[o].k>> ELSE <<obj[o].k, [j \in 1..Len(obj[o].c) |-> TreeO(obj[o].c[j], d - 1)]>>

TypeOK == /\ Len(obj) <= N /\ st \in {"run", "ok", "err"}
          /\ \A p \in Pos : reg[p] \in 0..Len(obj)
          /\ \A o \in 1..Len(obj) : \A q \in 1..Len(obj) : o # q => obj[o].p # obj[q].p
ErrRight == st # "run" => (st = "err") = Closed
Unfolds == st = "ok" => TreeO(reg[1], N + 2) = TreeP(1, N + 2)
Terminates == <>(st # "run")

\* used by the generator run only
Emit == st = "run" \/ PrintT(<<"BEHAVIOUR", ToJson([g |-> g, out |-> st])>>)
=============================================================================
