------------------------------ MODULE MC_Place ------------------------------
(* Averaging any two placements that keep the nodes of a row apart keeps     *)
(* them apart, and so does every later move of a single node.  Rows do not   *)
(* share places, so one row is enough; the y coordinates stack the rows.     *)
EXTENDS Placement
CONSTANTS Nodes, Span, Heights
VARIABLES y, heights
all == <<rows, ext, up, x, side, at, y, heights>>
Exts == {<<1, 1>>, <<0, 2>>, <<2, 1>>}
PlacesOf(e) == {p \in [1..Nodes -> {<<v>> : v \in 0..Span}] : Apart(<<[j \in 1..Nodes |-> j]>>, e, p)}
(* Rows from the top, each as high as its highest node; a node is in the     *)
(* middle of its row (coordinates are doubled).                              *)
RECURSIVE StackAt(_, _)
StackAt(hs, L) == IF L = 1 THEN 0 ELSE StackAt(hs, L - 1) + 2 * Max({hs[L - 1][j] : j \in 1..Len(hs[L - 1])})
TopY(hs, L, j) == StackAt(hs, L) + Max({hs[L][q] : q \in 1..Len(hs[L])}) - hs[L][j]
SumBefore(a) == FoldLeft(LAMBDA acc, b : IF b < a THEN acc + ext[b][1] + ext[b][2] ELSE acc, 0, [j \in 1..Nodes |-> j])
Flat == heights = <<<<1, 1>>, <<1, 1>>, <<1, 1>>>>
Init == /\ rows = <<[j \in 1..Nodes |-> j]>> /\ up = [j \in 1..Nodes |-> <<>>] /\ side = "left"
        /\ ext \in [1..Nodes -> Exts]
        /\ x \in PlacesOf(ext) /\ at = "first"
        /\ heights \in [1..3 -> {<<a, b>> : a, b \in Heights}]
        /\ y = <<>>
        (* The heights and the places along the row do not depend on each other. *)
        /\ \/ heights = <<<<1, 1>>, <<1, 1>>, <<1, 1>>>>
           \/ x = [a \in 1..Nodes |-> <<ext[a][1] + SumBefore(a)>>]
Average == /\ at = "first" /\ at' = "average"
           /\ \E p \in PlacesOf(ext) : (Flat \/ p = x) /\ x' = [a \in 1..Nodes |-> <<x[a][1] + p[a][1]>>]
           /\ ext' = [a \in 1..Nodes |-> <<2 * ext[a][1], 2 * ext[a][2]>>]
           /\ UNCHANGED <<rows, up, side, y, heights>>
Shift == /\ at \in {"average", "fix"} /\ x' = Origin(x, ext) /\ at' = IF at = "fix" THEN "end" ELSE "fix"
         /\ y' = IF at = "fix" THEN y ELSE [L \in 1..3 |-> [j \in 1..2 |-> TopY(heights, L, j)]]
         /\ UNCHANGED <<rows, ext, up, side, heights>>
Fix == /\ Flat /\ UNCHANGED <<y, heights>>
       /\ \E a \in 1..Nodes : \/ JoinLeft(a)
                              \/ JoinRight(a)
                              \/ \E v \in {x[a][1] - 1, x[a][1] + 2} : Straighten(a, v)
Next == Average \/ Shift \/ Fix \/ (at = "end" /\ UNCHANGED all)
Spec == Init /\ [][Next]_all
Small == \A a \in 1..Nodes : x[a][1] <= 4 * Span /\ x[a][1] >= -4 * Span
Separate == Apart(rows, ext, x)
InOrder == \A a \in 1..(Nodes - 1) : x[a][1] <= x[a + 1][1]
InPlane == at \in {"end"} => FromTheEdge(x, ext)
Stacked == y # <<>> => \A L \in 1..2 : \A j, k \in 1..2 : y[L][j] + 2 * heights[L][j] <= y[L + 1][k] /\ y[1][j] >= 0
=============================================================================
