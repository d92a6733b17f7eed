------------------------------ MODULE T_Layout ------------------------------
(* Recorded layouts and drawings of real graphs.                             *)
EXTENDS Layout, Json, IOUtils
CONSTANT Subject
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
vars == <<i, st>>
C == Cases[i]
B == C.out.built
G == C.out.main
Right == CASE Subject = "C09" -> RecordsDrawn(G, C.roomy)
           [] Subject = "C16" -> Placed(B, G)
           [] Subject = "C17" -> Directed(B, G) /\ (C.mirror => Mirrored(G, C.out.mirror))
           [] Subject = "C18" -> EdgesDrawn(B, G)
           [] Subject = "C19" -> ShapesDrawn(B, G)
           [] Subject = "C28" -> /\ OnlyMarks(C.out.plain.calls, G.calls)
                                 /\ C.out.plain.nodes = G.nodes /\ C.out.plain.edges = G.edges
                                 /\ C.out.plain.rows = G.rows /\ C.out.plain.ori = G.ori
Init == i = 0 /\ st = "none"
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ st' = "drawn"
        \/ st = "drawn" /\ C.outcome = "ok" /\ (Right = TRUE) /\ st' = "accepted" /\ i' = i
        \/ st = "accepted" /\ UNCHANGED vars
=============================================================================
