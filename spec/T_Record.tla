------------------------------ MODULE T_Record ------------------------------
EXTENDS Record, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
C == Cases[i]
Init == i = 0 /\ l = 0
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ l' = 0
Check == /\ i > 0 /\ l = 0 /\ C.outcome = "ok"
         /\ C.out.cells = Cells(C.text)
         /\ l' = 1 /\ i' = i
Next == Pick \/ Check \/ (i > 0 /\ l = 1 /\ UNCHANGED <<i, l>>)
=============================================================================
