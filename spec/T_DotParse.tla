----------------------------- MODULE T_DotParse -----------------------------
(* The trees of the real parser against the two machines. *)
EXTENDS DotText, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
C == Cases[i]
Init == i = 0 /\ l = 0
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ l' = 0
Check == /\ i > 0 /\ l = 0 /\ C.outcome = "ok"
         /\ LET p == Parse(C.text) IN
            CASE p.m = "accept" -> C.out.res = "tree" /\ SameProgram(p.ev, C.out.ev)
              [] p.m = "reject" -> C.out.res = "error"
              [] p.m = "unspec" -> C.out.res \in {"tree", "error"}
         /\ l' = 1 /\ i' = i
Next == Pick \/ Check \/ (i > 0 /\ l = 1 /\ UNCHANGED <<i, l>>)
=============================================================================
