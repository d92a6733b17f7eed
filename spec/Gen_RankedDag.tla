---- MODULE Gen_RankedDag ----
(* Operation sequences of RankedDag, for replay into the real container. *)
EXTENDS RankedDag, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
Op(o, a) == hist' = Append(hist, [o |-> o, a |-> a])
GNext == /\ Len(hist) < Depth
         /\ \/ n < MaxNodes /\ NewNodes(1) /\ Op("new", <<>>)
            \/ n = 0 /\ NewNodes(2) /\ Op("news", <<2>>)
            \/ \E a, b \in NodesOf(n) : NumEdges(edges) < MaxEdges /\ AddEdge(a, b) /\ Op("edge", <<a, b>>)
            \/ \E a, b \in NodesOf(n) : RemoveEdge(a, b) /\ Op("unedge", <<a, b>>)
            \/ \E a \in NodesOf(n), L \in 0..MaxLevel : Move(a, L, <<>>) /\ Op("move", <<a, L>>)
            \/ \E a, m \in NodesOf(n) : a # m /\ Move(a, LevelOf(rows, m), <<m>>)
                                        /\ Op("move", <<a, LevelOf(rows, m), m>>)
            \/ Rank /\ Op("rank", <<>>)
            \/ n > 0 /\ UNCHANGED vars /\ Op("verify", <<>>)
            \/ n > 0 /\ Clear /\ Op("clear", <<>>)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
==============================
