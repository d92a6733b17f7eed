---------------------------- MODULE Gen_Geometry ----------------------------
(* Every segment of a grid against every box inside of it. *)
EXTENDS Geometry, Json
CONSTANTS Grid, Box
VARIABLES b, p
Boxes == {x \in (1..Box) \X (1..Box) \X (1..Box) \X (1..Box) : x[1] <= x[3] /\ x[2] <= x[4]}
Init == b \in Boxes /\ p \in (0..Grid) \X (0..Grid)
Next == FALSE /\ UNCHANGED <<b, p>>
Emit == PrintT("@@" \o ToJson([b |-> b, p |-> p, g |-> Grid]))
=============================================================================
