------------------------------- MODULE T_Sink -------------------------------
(* Recorded runs of the rank optimizer, as a whole and node by node.         *)
EXTENDS Lowering, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
vars == <<i, l>>
C == Cases[i]
O == C.out
Bag == FoldLeft(LAMBDA b, e : AddE(b, e), E0, C.edges)
SameEdges(d) == /\ d.n = C.n /\ Len(d.succ) = C.n /\ Len(d.pred) = C.n
                /\ \A a \in NodesOf(C.n) : \A b \in NodesOf(C.n) :
                     /\ Cardinality({j \in 1..Len(d.succ[a+1]) : d.succ[a+1][j] = b}) = Mult(Bag, <<a, b>>)
                     /\ Cardinality({j \in 1..Len(d.pred[b+1]) : d.pred[b+1][j] = a}) = Mult(Bag, <<a, b>>)
Lv(d) == LevelsIn(d.rows, C.n)
Fine(d) == SameEdges(d) /\ WellRanked(d.rows, C.n)
Whole == LET b == Bag
             x == Lv(O.before)
             y == Lv(O.after)
         IN /\ Fine(O.before) /\ x = LongestPath(b, C.n)
            /\ Fine(O.after) /\ LegalLevels(b, y)
            /\ \A a \in NodesOf(C.n) : y[a] >= x[a]
            /\ Length(b, y) <= Length(b, x)
            /\ \A a \in NodesOf(C.n) : ~CanSink(b, y, a)
            /\ y = SinkAll(b, x)
Prev == IF l = 1 THEN O.before ELSE O.steps[l-1].st
Step == LET b == Bag
            s == O.steps[l]
            x == Lv(Prev)
            y == Lv(s.st)
        IN /\ Fine(s.st) /\ s.r = CanSink(b, x, s.n)
           /\ y = IF s.r THEN [x EXCEPT ![s.n] = SinkLevel(b, x, s.n)] ELSE x
Init == i = 0 /\ l = 0
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ l' = 0
Next == \/ Pick
        \/ i > 0 /\ l = 0 /\ C.outcome = "ok" /\ (Whole = TRUE) /\ l' = 1 /\ i' = i
        \/ i > 0 /\ l \in 1..Len(C.steps) /\ (Step = TRUE) /\ l' = l + 1 /\ i' = i
        \/ i > 0 /\ l > Len(C.steps) /\ UNCHANGED vars
=============================================================================
