---- MODULE Gen_FileSave ----
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Targets, Sizes, Limits, Depth
VARIABLE hist
Init == hist = <<>>
Next == \E t \in Targets, n \in Sizes, lim \in Limits :
           Len(hist) < Depth /\ hist' = Append(hist, [t |-> t, n |-> n, limit |-> lim])
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================
