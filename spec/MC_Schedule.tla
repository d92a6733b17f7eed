---------------------------- MODULE MC_Schedule ----------------------------
(* Every alignment that does not cross, scheduled in every order: it always  *)
(* ends with every node placed, apart from its neighbours, verticals being   *)
(* straight, and at the same places whatever the order.                      *)
EXTENDS Placement
CONSTANTS Shapes, Patterns, MayCross
QuickShapes == {<<3, 3>>, <<2, 2, 2>>, <<3, 2, 2>>, <<1, 3, 2>>}
DeepShapes == {<<3, 3, 3>>, <<4, 4>>, <<2, 3, 3>>}
QuickPatterns == {<<1, 0>>, <<1, 2>>, <<3, 1>>}
DeepPatterns == {<<1, 0>>, <<1, 2>>, <<3, 1>>, <<2, 1>>, <<0, 1>>}
RowsOf(s) == LET below(L) == IF L = 1 THEN 0 ELSE IF L = 2 THEN s[1] ELSE s[1] + s[2]
             IN [L \in 1..Len(s) |-> [j \in 1..s[L] |-> below(L) + j]]
Reach2(p, a) == LET k == (a * p[1] + p[2]) % 4
                IN CASE k = 0 -> <<1, 1>> [] k = 1 -> <<3, 3>> [] k = 2 -> <<1, 4>> [] OTHER -> <<2, 2>>
Init == /\ \E s \in Shapes : rows = RowsOf(s)
        /\ \E p \in Patterns : ext = [a \in AllNodes(rows) |-> Reach2(p, a)]
        /\ up \in Alignments(rows, MayCross)
        /\ x = [a \in AllNodes(rows) |-> <<>>]
        /\ side \in {"left", "right"} /\ at = "schedule"
Next == \/ \E t \in Tops : Schedule(t)
        \/ AllPlaced /\ at = "schedule" /\ at' = "placed" /\ UNCHANGED <<rows, ext, up, x, side>>
        \/ at = "placed" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* Some vertical is always ready. (Deadlock is checked as well.) *)
Live == at = "schedule" /\ ~AllPlaced => \E t \in Tops : Ready(t)
Separate == Apart(rows, ext, x)
Straight == \A a \in DOMAIN up : up[a] # <<>> /\ Placed(a) => x[a] = x[up[a][1]]
(* The place of a vertical follows from its neighbours alone. *)
RECURSIVE Place(_)
Place(t) == LET near(a) == LET p == Before(a) IN
                   IF p = <<>> THEN 0
                   ELSE IF side = "left" THEN Place(TopOf(p[1])) + ext[p[1]][2] + Gap + ext[a][1]
                   ELSE Place(TopOf(p[1])) - ext[p[1]][1] - Gap - ext[a][2]
                s == {0} \cup {near(a) : a \in Vertical(t)}
            IN IF side = "left" THEN Max(s) ELSE Min(s)
Confluent == \A a \in DOMAIN x : Placed(a) => x[a][1] = Place(TopOf(a))
Ends == <>(at = "placed")
=============================================================================
