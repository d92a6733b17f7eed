------------------------------ MODULE T_Cross -------------------------------
(* Recorded runs of the crossing optimizer, each from where the one before  *)
(* has stopped; or (op = "crosslow") a graph lowered without and with        *)
(* optimizations.                                                            *)
EXTENDS Lowering, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
vars == <<i, l>>
C == Cases[i]
O == C.out.states
Bag == FoldLeft(LAMBDA b, e : AddE(b, e), E0, C.edges)
Only == /\ O[l+1].n = O[l].n
        /\ O[l+1].succ = O[l].succ /\ O[l+1].pred = O[l].pred
        /\ SameRows(O[l].rows, O[l+1].rows)
NotWorse == LET b == Bag IN Crossings(b, O[l+1].rows) <= Crossings(b, O[l].rows)
(* What a single exchange can do, the optimizer does at least. *)
Better == LET b == Bag IN Improvable(b, O[l].rows) => Crossings(b, O[l+1].rows) < Crossings(b, O[l].rows)
(* A graph that no node of sinks is lowered to the same rows, but for their  *)
(* order.                                                                    *)
Lowered == C.op = "crosslow"
Sinks == LET b == Bag
             lp == LongestPath(b, C.n)
         IN SinkAll(b, lp) # lp
LowBag == FoldLeft(LAMBDA acc, a : FoldLeft(LAMBDA b, x : AddE(b, <<a, x>>), acc, O[1].succ[a + 1]),
                   E0, [j \in 1..O[1].n |-> j - 1])
LowOk == \/ Sinks
         \/ /\ Only
            /\ LET b == LowBag
                   x == Crossings(b, O[1].rows)
                   y == Crossings(b, O[2].rows)
               IN y <= x /\ (Improvable(b, O[1].rows) => y < x)
Init == i = 0 /\ l = 0
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ l' = 0
        \/ i > 0 /\ l = 0 /\ C.outcome = "ok" /\ Len(O) = C.runs + 1 /\ l' = 1 /\ i' = i
        \/ i > 0 /\ l \in 1..C.runs /\ (IF Lowered THEN LowOk = TRUE ELSE Only = TRUE /\ NotWorse = TRUE /\ Better = TRUE) /\ l' = l + 1 /\ i' = i
        \/ i > 0 /\ l > C.runs /\ UNCHANGED vars
=============================================================================
