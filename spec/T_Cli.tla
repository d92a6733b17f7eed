------------------------------- MODULE T_Cli --------------------------------
(* Runs of the real tool: their arguments, what the library makes of the     *)
(* input, and what the run left behind.                                      *)
EXTENDS Cli, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
vars == <<i, st>>
C == Cases[i]
R == C.run
O == Args(C.args)
Kept == R.before = R.after
Writes == /\ R.code = 0 /\ R.after = <<C.lib.docs[DocAt(O)]>>
          /\ R.stdout = IF O.ast THEN AstText(C.lib.ev) ELSE ""
Readable == O.in = <<"IN">> /\ C.readable
Ran == CASE O.m = "usage" -> R.code # 0 /\ Kept /\ R.said
         [] ~Readable -> Kept /\ R.said
         [] C.lib.res = "error" -> Kept /\ R.said /\ R.named /\ R.code # 101
         [] C.writable -> Writes
         [] OTHER -> Kept /\ R.said
Init == i = 0 /\ st = "none"
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ st' = "ran"
        \/ st = "ran" /\ (Ran = TRUE) /\ ~R.others /\ st' = "accepted" /\ i' = i
        \/ st = "accepted" /\ UNCHANGED vars
=============================================================================
