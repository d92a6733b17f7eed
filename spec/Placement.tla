----------------------------- MODULE Placement -----------------------------
(***************************************************************************)
(* How the placer gives every node of the layered graph its place along    *)
(* its row (layout/src/topo/placer): nodes are aligned with at most one     *)
(* node of the row above, the chains of aligned nodes (verticals) are       *)
(* scheduled from one side, as near to that side as they fit, several of    *)
(* these placements are averaged, and single nodes are then moved within    *)
(* the gap between their neighbours.                                        *)
(*                                                                          *)
(* rows    sequence of rows, each a sequence of nodes                       *)
(* ext     node -> <<reach to the left, reach to the right>> of its center  *)
(* up      node -> the node above that it is aligned with, as <<v>> or <<>> *)
(* x       node -> place of the center, as <<v>> or <<>> when not placed    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
VARIABLES rows, ext, up, x, side, at
vars == <<rows, ext, up, x, side, at>>
Gap == 1                               \* the epsilon that keeps boxes apart
InRow(r) == {r[j] : j \in 1..Len(r)}
AllNodes(rs) == UNION {InRow(rs[L]) : L \in 1..Len(rs)}
RowOf(rs, a) == CHOOSE L \in 1..Len(rs) : a \in InRow(rs[L])
IndexIn(r, a) == CHOOSE j \in 1..Len(r) : r[j] = a

(* Alignments: partial matchings of two rows.                               *)
Matchings(r0, r1) == {m \in [InRow(r1) -> {<<>>} \cup {<<v>> : v \in InRow(r0)}] :
                         \A a, b \in InRow(r1) : a # b /\ m[a] # <<>> => m[a] # m[b]}
Crosses(m, r0, r1) == \E a, b \in InRow(r1) : /\ m[a] # <<>> /\ m[b] # <<>>
                                              /\ IndexIn(r1, a) < IndexIn(r1, b)
                                              /\ IndexIn(r0, m[a][1]) > IndexIn(r0, m[b][1])
RECURSIVE Alignments(_, _)
Alignments(rs, crossing) ==
   IF Len(rs) = 1 THEN {[a \in InRow(rs[1]) |-> <<>>]}
   ELSE LET n == Len(rs)
            rest == Alignments(SubSeq(rs, 1, n - 1), crossing)
            last == {m \in Matchings(rs[n - 1], rs[n]) : crossing \/ ~Crosses(m, rs[n - 1], rs[n])}
        IN {m @@ f : m \in last, f \in rest}

(* The vertical of a node: everything above and below that it is tied to.   *)
RECURSIVE Above(_)
Above(a) == {a} \cup (IF up[a] = <<>> THEN {} ELSE Above(up[a][1]))
TopOf(a) == CHOOSE t \in Above(a) : up[t] = <<>>
Vertical(t) == {a \in DOMAIN up : t \in Above(a)}
Tops == {a \in DOMAIN up : up[a] = <<>>}

(* The next free node of a row, from the side that the schedule starts at.  *)
Placed(a) == x[a] # <<>>
NextFree(L) == LET r == rows[L]
                   free == {j \in 1..Len(r) : ~Placed(r[j])}
               IN r[IF side = "left" THEN Min(free) ELSE Max(free)]
Ready(t) == ~Placed(t) /\ \A a \in Vertical(t) : NextFree(RowOf(rows, a)) = a
(* How far the row is taken before node a. *)
Before(a) == LET r == rows[RowOf(rows, a)]
                 j == IndexIn(r, a)
             IN IF side = "left" THEN (IF j = 1 THEN <<>> ELSE <<r[j - 1]>>)
                ELSE (IF j = Len(r) THEN <<>> ELSE <<r[j + 1]>>)
Nearest(a) == LET p == Before(a) IN
   IF p = <<>> THEN 0
   ELSE IF side = "left" THEN x[p[1]][1] + ext[p[1]][2] + Gap + ext[a][1]
   ELSE x[p[1]][1] - ext[p[1]][1] - Gap - ext[a][2]
SpotOf(t) == LET s == {0} \cup {Nearest(a) : a \in Vertical(t)} IN IF side = "left" THEN Max(s) ELSE Min(s)
Schedule(t) == /\ at = "schedule" /\ Ready(t)
               /\ x' = [a \in DOMAIN x |-> IF a \in Vertical(t) THEN <<SpotOf(t)>> ELSE x[a]]
               /\ UNCHANGED <<rows, ext, up, side, at>>
AllPlaced == \A a \in DOMAIN x : Placed(a)

(* Two neighbours of a row do not share a place. *)
Apart(rs, e, place) == \A L \in 1..Len(rs) : \A j \in 1..(Len(rs[L]) - 1) :
   LET a == rs[L][j]
       b == rs[L][j + 1]
   IN (place[a] # <<>> /\ place[b] # <<>>) => place[a][1] + e[a][2] <= place[b][1] - e[b][1]
(* Moving one node within the gap between its neighbours. *)
LeftEnd(a) == LET r == rows[RowOf(rows, a)] j == IndexIn(r, a)
              IN IF j = 1 THEN <<>> ELSE <<x[r[j - 1]][1] + ext[r[j - 1]][2]>>
RightEnd(a) == LET r == rows[RowOf(rows, a)] j == IndexIn(r, a)
               IN IF j = Len(r) THEN <<>> ELSE <<x[r[j + 1]][1] - ext[r[j + 1]][1]>>
Fits(a, v) == /\ LeftEnd(a) # <<>> => v - ext[a][1] >= LeftEnd(a)[1]
              /\ RightEnd(a) # <<>> => v + ext[a][2] <= RightEnd(a)[1]
(* A label is pulled straight between its neighbours, if there is room. *)
Straighten(a, v) == /\ at = "fix" /\ Fits(a, v) /\ x' = [x EXCEPT ![a] = <<v>>]
                    /\ UNCHANGED <<rows, ext, up, side, at>>
(* A node without edges, or the connector of a loop, joins its neighbour. *)
JoinLeft(a) == /\ at = "fix" /\ LeftEnd(a) # <<>> /\ x' = [x EXCEPT ![a] = <<LeftEnd(a)[1] + ext[a][1]>>]
               /\ UNCHANGED <<rows, ext, up, side, at>>
JoinRight(a) == /\ at = "fix" /\ RightEnd(a) # <<>> /\ x' = [x EXCEPT ![a] = <<RightEnd(a)[1] - ext[a][2]>>]
                /\ UNCHANGED <<rows, ext, up, side, at>>
(* The whole drawing is moved to the origin. *)
Origin(place, e) == LET m == Min({place[a][1] - e[a][1] : a \in DOMAIN place})
                    IN [a \in DOMAIN place |-> <<place[a][1] - m>>]
FromTheEdge(place, e) == \A a \in DOMAIN place : place[a][1] - e[a][1] >= 0
=============================================================================
