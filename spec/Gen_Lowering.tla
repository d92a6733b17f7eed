---------------------------- MODULE Gen_Lowering ----------------------------
(* Every small graph: edge lists over K nodes, as the model writes them.     *)
EXTENDS MC_Lowering
GNext == Write
Emit == Len(todo) > 0 => PrintT("@@" \o ToJson([j \in 1..Len(todo) |-> <<todo[j].path[1], todo[j].path[2], todo[j].text>>]))
=============================================================================
