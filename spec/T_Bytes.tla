------------------------------ MODULE T_Bytes -------------------------------
(* Everything that was seen of a program: the digests of its documents, from *)
(* several processes that drew it among others in different orders.          *)
EXTENDS Repeat, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
vars == <<i, l, memory>>
C == Cases[i]
Init == i = 0 /\ l = 1 /\ memory = Nothing
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ UNCHANGED <<l, memory>>
        \/ i > 0 /\ l \in 1..Len(C.seen) /\ C.seen[l].ok /\ Draws(i, C.seen[l].d) /\ l' = l + 1 /\ i' = i
        \/ i > 0 /\ l = Len(C.seen) + 1 /\ UNCHANGED vars
=============================================================================
