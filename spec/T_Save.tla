------------------------------- MODULE T_Save -------------------------------
(* Histories of real saves, with the content of the targets after each.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
F == INSTANCE FileSave WITH Targets <- {"a", "b", "ro"}, Refused <- {"missing", "dir", "empty"}, Sizes <- {}, Limits <- {},
                            fs <- 0, op <- 0, report <- 0, saves <- 0
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l, there
vars == <<i, l, there>>
C == Cases[i]
Op == C.ops[l]
Step == C.out.steps[l]
Limit == IF Op.limit < 0 THEN 2000000000 ELSE Op.limit
(* The full device takes no byte; a file that may not be written can still   *)
(* be replaced by one that may.                                              *)
Foretold == IF Op.t = "full" THEN IF Op.n = 0 THEN {"ok"} ELSE {"err"}
            ELSE IF Op.t = "ro" THEN {"err"} \cup {F!Outcome(Op.t, Op.n, Limit)}
            ELSE {F!Outcome(Op.t, Op.n, Limit)}
Regular == Op.t \in {"a", "b", "ro"}
File == IF Regular THEN C.names[Op.t] ELSE ""
Elem(s) == {s[j] : j \in 1..Len(s)}
Saved == /\ Step.res \in Foretold
         /\ Regular => CASE Step.res = "ok" -> Step.after = "new"
                         [] Op.t = "ro" -> Step.after = "old"
                         [] OTHER -> Step.after \in {"none", "empty", "old", "prefix"}
         (* Nothing comes or goes but the target. *)
         /\ Elem(Step.files) \ {File} = there \ {File}
         /\ (Regular /\ Step.res = "ok") => File \in Elem(Step.files)
         /\ \A t \in 1..Len(Step.kept) : Step.kept[t]
Init == i = 0 /\ l = 1 /\ there = {}
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ l' = l /\ there' = {}
        \/ /\ i > 0 /\ l = 1 /\ there = {} /\ C.outcome = "ok" /\ there' = Elem(C.out.before) /\ UNCHANGED <<i, l>>
        \/ /\ there # {} /\ l <= Len(C.ops) /\ (Saved = TRUE)
           /\ l' = l + 1 /\ i' = i /\ there' = Elem(Step.files)
        \/ i > 0 /\ l = Len(C.ops) + 1 /\ UNCHANGED vars
=============================================================================
