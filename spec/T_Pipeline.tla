---------------------------- MODULE T_Pipeline -----------------------------
(* Recorded runs of the real pipeline. Program = TRUE: the text is a program *)
(* and must not be refused.                                                  *)
EXTENDS Pipeline, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
vars == <<at, drawn, i, l>>
C == Cases[i]
P == C.out.phases
Init == i = 0 /\ l = 1 /\ Start
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ UNCHANGED <<at, drawn, l>>
Ran(p) == P[l].p = p /\ P[l].oc = "ok"
Step == /\ i > 0 /\ C.outcome = "ok" /\ l <= Len(P) /\ l' = l + 1 /\ i' = i
        /\ \/ Ran("parse") /\ P[l].r = "tree" /\ Parse
           \/ Ran("parse") /\ P[l].r = "error" /\ ~C.program /\ Refuse
           \/ Ran("dump") /\ Dump
           \/ Ran("build") /\ Build
           \/ Ran("draw") /\ P[l].r = "svg" /\ Draw(<<P[l].f[1], P[l].f[2], P[l].f[3]>>)
Stop == i > 0 /\ C.outcome = "ok" /\ l > Len(P) /\ Ended /\ UNCHANGED vars
Next == Pick \/ Step \/ Stop
=============================================================================
