---------------------------- MODULE MC_Geometry -----------------------------
(* The definitions against each other, for every small configuration. *)
EXTENDS Geometry
CONSTANTS Grid, Box, Vals
VARIABLES p, q, b, s
vars == <<p, q, b, s>>
Pts == (0..Grid) \X (0..Grid)
Boxes == {x \in (1..Box) \X (1..Box) \X (1..Box) \X (1..Box) : x[1] <= x[3] /\ x[2] <= x[4]}
Init == p = <<0, 0>> /\ q = <<0, 0>> /\ b = <<1, 1, 1, 1>> /\ s = <<0>>
Next == \/ p' \in Pts /\ p = <<0, 0>> /\ s = <<0>> /\ UNCHANGED <<q, b, s>>
        \/ q = <<0, 0>> /\ s = <<0>> /\ q' \in Pts /\ b' \in Boxes /\ UNCHANGED <<p, s>>
        \/ p = <<0, 0>> /\ q = p /\ Len(s) < 4 /\ \E v \in Vals : s' = Append(s, v) /\ UNCHANGED <<p, q, b>>
Spec == Init /\ [][Next]_vars
Agree == Meets(p, q, b) = ClipMeets(p, q, b) /\ Meets(p, q, b) = Meets(q, p, b)
MedianIsMiddle == IsMedian2(s, Median2(s))
TurnsAreTurns == /\ Quarter(p[1], p[2], 4) = p
                 /\ LET r == Quarter(p[1], p[2], 1) IN Quarter(r[1], r[2], 1) = Quarter(p[1], p[2], 2)
Symmetric == LET c == <<p[1], p[2], p[1] + 2, p[2] + 1>> IN BoxesIntersect(b, c) = BoxesIntersect(c, b)
=============================================================================
