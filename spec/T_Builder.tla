------------------------------ MODULE T_Builder ------------------------------
(* A program is read by DotText and its statements drive Builder one by one; *)
(* at the end the graph must be the one the real builder made.               *)
EXTENDS DotText, Json, IOUtils
Bd == INSTANCE Builder
CONSTANT Whole          \* FALSE: compare the structure only
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, evs, b
vars == <<i, evs, b>>
C == Cases[i]
Init == i = 0 /\ evs = <<>> /\ b = Bd!BuildInit
Pick == /\ i = 0 /\ i' \in 1..Len(Cases) /\ b' = b
        /\ evs' = <<Ev("unread", "", <<>>, <<>>, <<>>)>>
Read == /\ i > 0 /\ evs # <<>> /\ evs[1].e = "unread"
        /\ LET p == Parse(C.text) IN
           evs' = IF p.m = "accept" THEN p.ev ELSE <<Ev(p.m, "", <<>>, <<>>, <<>>)>>
        /\ UNCHANGED <<i, b>>
Build == /\ i > 0 /\ evs # <<>> /\ evs[1].e \in {"open", "close", "node", "edge", "attr"}
         /\ b' = Bd!BuildStep(b, evs[1]) /\ evs' = Tail(evs) /\ i' = i
(* Programs outside of the language are not the subject here. *)
Other == /\ i > 0 /\ evs # <<>> /\ evs[1].e \in {"reject", "unspec"}
         /\ evs' = <<Ev("over", "", <<>>, <<>>, <<>>)>> /\ UNCHANGED <<i, b>>
Same == /\ i > 0 /\ evs = <<>>
        /\ C.outcome = "ok" /\ C.out.res = "graph"
        /\ IF Whole THEN Bd!SameGraph(b, C.out.g) ELSE Bd!SameStructure(b, C.out.g)
        /\ evs' = <<Ev("over", "", <<>>, <<>>, <<>>)>> /\ UNCHANGED <<i, b>>
Over == i > 0 /\ evs # <<>> /\ evs[1].e = "over"
Next == Pick \/ Read \/ Build \/ Other \/ Same \/ (Over /\ UNCHANGED vars)
=============================================================================
