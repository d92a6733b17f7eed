------------------------------ MODULE T_Answer ------------------------------
(* Every text gets an answer: the run of the front end on a text is         *)
(*   reading -> (tree | error(message) -> reported) -> finished             *)
(* and no text leads anywhere else: a panic, an abort or a run that does    *)
(* not end is a trace this machine does not have.                           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
C == Cases[i]
Init == i = 0 /\ st = "none"
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ st' = "reading"
Answer == /\ st = "reading" /\ C.outcome = "ok"
          /\ \/ C.out.res = "tree" /\ st' = "tree"
             \/ C.out.res = "error" /\ C.out.said /\ st' = "error"
          /\ i' = i
Finish == st \in {"tree", "error"} /\ st' = "finished" /\ i' = i
Next == Pick \/ Answer \/ Finish \/ (st = "finished" /\ UNCHANGED <<i, st>>)
=============================================================================
