---------------------------- MODULE MC_Pipeline ----------------------------
EXTENDS Pipeline
Next == Refuse \/ Parse \/ Dump \/ Build \/ \E f \in Flags : Draw(f)
Spec == Start /\ [][Next]_pvars /\ WF_pvars(Next)
Types == at \in {"text", "refused", "tree", "dumped", "graph"} /\ drawn \subseteq Flags
DrawnOnlyPrograms == drawn # {} => at = "graph"
EveryRunEnds == <>Ended
=============================================================================
