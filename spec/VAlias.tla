------------------------------- MODULE VAlias -------------------------------
(***************************************************************************)
(* Life times around loaded schemas.  A source document exists while it is  *)
(* "live" or "spoilt" (overwritten in place); the schema loaded from it and  *)
(* the parser lead lives of their own.  A load takes the document as it is;  *)
(* nothing that happens to a document, to the parser or to another schema    *)
(* afterwards, and no validation, changes what a loaded schema means, nor    *)
(* does moving it.  The histories are replayed; validating schema n must     *)
(* give the verdicts of the n-th schema text every time.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,       \* schema texts
          Libs,    \* kinds of documents
          Steps

Slots == 1..N
VARIABLES src,      \* slot -> "none" "live" "spoilt"
          means,    \* slot -> 0 (not loaded) or the text it was loaded from
          parser,   \* does the parser exist
          hist, fin
vars == <<src, means, parser, hist, fin>>

Init == src = [n \in Slots |-> "none"] /\ means = [n \in Slots |-> 0] /\ parser = TRUE /\ hist = <<>> /\ fin = FALSE

Did(op, res) == hist' = Append(hist, [op |-> op, res |-> res])

\* a parser is made when there is none
Load(n, l) == /\ src' = [src EXCEPT ![n] = "live"] /\ means' = [means EXCEPT ![n] = n] /\ parser' = TRUE
              /\ Did(<<"load", n - 1, l>>, "ok")
Spoil(n) == /\ src[n] = "live" /\ src' = [src EXCEPT ![n] = "spoilt"]
            /\ UNCHANGED <<means, parser>> /\ Did(<<"poison", n - 1>>, "ok")
Drop(n) == /\ src[n] # "none" /\ src' = [src EXCEPT ![n] = "none"]
           /\ UNCHANGED <<means, parser>> /\ Did(<<"destroy", n - 1>>, "ok")
DropParser == parser /\ parser' = FALSE /\ UNCHANGED <<src, means>> /\ Did(<<"parser">>, "ok")
Move(n, how) == /\ means[n] # 0 /\ UNCHANGED <<src, means, parser>> /\ Did(<<how, n - 1>>, "ok")
Validate(n) == /\ means[n] # 0 /\ UNCHANGED <<src, means, parser>>
               /\ Did(<<"v", n - 1>>, <<"verdicts", means[n]>>)

\* two validations in a row only repeat what one shows
Fresh(n) == Len(hist) = 0 \/ hist[Len(hist)].op # <<"v", n - 1>>
Step == /\ Len(hist) < Steps /\ UNCHANGED fin
        /\ \/ \E n \in Slots : \/ \E l \in Libs : Load(n, l)
                               \/ Spoil(n) \/ Drop(n) \/ Move(n, "move") \/ Move(n, "movea")
                               \/ Validate(n) /\ Fresh(n)
           \/ DropParser
RECURSIVE LookAll(_)
LookAll(n) == IF n > N THEN <<>>
              ELSE (IF means[n] # 0 THEN <<[op |-> <<"v", n - 1>>, res |-> <<"verdicts", means[n]>>]>> ELSE <<>>) \o LookAll(n + 1)
Stop == /\ Len(hist) = Steps /\ ~fin /\ fin' = TRUE
        /\ hist' = hist \o LookAll(1) /\ UNCHANGED <<src, means, parser>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

\* only loading it gives a schema its meaning
Stable == [][\A n \in Slots : means'[n] # means[n] => \E l \in Libs : Load(n, l)]_vars
OwnText == \A n \in Slots : means[n] \in {0, n}

Emit == ~fin \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
