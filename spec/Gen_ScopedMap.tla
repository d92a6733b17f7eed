--------------------------- MODULE Gen_ScopedMap ---------------------------
(* Behaviours of ScopedMap up to a depth, printed as operation sequences   *)
(* that the harness replays into the real map.                             *)
EXTENDS ScopedMap, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
Op(o,k,v) == hist' = Append(hist, [o |-> o, key |-> k, v |-> v])
GNext == /\ Len(hist) < Depth
         /\ \/ Push /\ Op("push", "", 0)
            \/ Pop /\ Op("pop", "", 0)
            \/ \E k \in Keys, v \in Vals : Insert(k,v) /\ Op("ins", k, v)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
============================================================================
