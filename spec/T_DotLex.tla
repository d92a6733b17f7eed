------------------------------ MODULE T_DotLex ------------------------------
(* The tokens of the real lexer against the character machine.              *)
EXTENDS DotText, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
C == Cases[i]
Init == i = 0 /\ l = 0
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ l' = 0
(* One character at a time would be the same: Lex is the fold of LexStep.   *)
Check == /\ i > 0 /\ l = 0 /\ C.outcome = "ok"
         /\ LET L == Lex(C.text)
                known == SelectSeq(L.t, LAMBDA t : t.k # "unspec")
            IN IF L.m = "unspec"
               THEN IsPrefix(known, C.out.toks)
               ELSE C.out.toks = L.t /\ C.out.errpos = L.e
         /\ l' = 1 /\ i' = i
Next == Pick \/ Check \/ (i > 0 /\ l = 1 /\ UNCHANGED <<i, l>>)
=============================================================================
