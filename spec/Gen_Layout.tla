----------------------------- MODULE Gen_Layout -----------------------------
(* Small graphs for the layout engine: the kinds of the nodes, and edges with *)
(* labels, styles and heads, in both directions of drawing.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxNodes, MaxEdges
VARIABLES ori, kinds, edges
vars == <<ori, kinds, edges>>
Kinds == {"box", "circle", "dcircle", "record"}
Sorts == {<<"", "normal">>, <<"x", "normal">>, <<"two\nlines", "dashed">>, <<"", "none">>}
Init == ori \in {"TB", "LR"} /\ kinds = <<>> /\ edges = <<>>
AddNode == /\ edges = <<>> /\ Len(kinds) < MaxNodes
           /\ \E k \in Kinds : kinds' = Append(kinds, k)
           /\ UNCHANGED <<ori, edges>>
AddEdge == /\ kinds # <<>> /\ Len(edges) < MaxEdges
           /\ \E f, t \in 0..(Len(kinds) - 1) : \E s \in Sorts :
                edges' = Append(edges, [f |-> f, t |-> t, text |-> s[1], style |-> s[2]])
           /\ UNCHANGED <<ori, kinds>>
Next == AddNode \/ AddEdge
Spec == Init /\ [][Next]_vars
Emit == (kinds # <<>> /\ Len(edges) <= MaxEdges) => PrintT("@@" \o ToJson([ori |-> ori, kinds |-> kinds, edges |-> edges]))
=============================================================================
