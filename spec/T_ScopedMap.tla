---------------------------- MODULE T_ScopedMap ----------------------------
(* Traces of the real scoped map, checked against ScopedMap.               *)
EXTENDS ScopedMap, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
tvars == <<stack, i, l>>
C == Cases[i]
Ops == C.ops
Done == i > 0 /\ l > Len(Ops)

TInit == Init /\ i = 0 /\ l = 1
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ UNCHANGED <<stack, l>>

(* The projection of the real map after operation l. *)
Observed == LET o == C.out.steps[l] IN
   /\ o.oc = "ok"
   /\ \A q \in 1..Len(C.keys) :
        LET k == C.keys[q] IN
        /\ o.get[q] = SGet(stack', k)
        /\ o.flat[q] = SGet(stack', k)
        /\ o.has[q] = (SGet(stack', k) # <<>>)
   /\ o.nflat = Cardinality(SKeys(stack'))
   /\ o.len = Len(stack')
   /\ o.empty = (stack' = <<>>)

Step == /\ i > 0 /\ ~Done /\ C.outcome = "ok"
        /\ LET op == Ops[l] IN
           \/ op.o = "push" /\ stack' = SPush(stack)
           \/ op.o = "pop"  /\ stack' = SPop(stack)
           \/ op.o = "ins"  /\ Insert(op.key, op.v)
        /\ Observed
        /\ l' = l + 1 /\ i' = i
TNext == Pick \/ Step \/ (Done /\ UNCHANGED tvars)
============================================================================
