----------------------------- MODULE RecordBox -----------------------------
(***************************************************************************)
(* How the box of a record is divided (layout/src/std_shapes/render.rs).   *)
(* A cell is [t |-> "text", w, h, kids |-> <<>>] or [t |-> "row", ...].     *)
(* The kids of a row lie side by side in the direction of the row, and the  *)
(* direction alternates with the depth.  A row divides its length among its *)
(* kids in proportion to their sizes; each kid gets the whole breadth.      *)
(* Lengths are fractions <<num, den>>.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsV(a) == IF a < 0 THEN -a ELSE a
Fr(n, d) == LET g == Gcd(AbsV(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Whole(n) == <<n, 1>>
Plus(a, b) == Fr(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Times(a, b) == Fr(a[1] * b[1], a[2] * b[2])
AtMostF(a, b) == a[1] * b[2] <= b[1] * a[2]
Text(w, h) == [t |-> "text", w |-> w, h |-> h, kids |-> <<>>]
Row(kids) == [t |-> "row", w |-> 0, h |-> 0, kids |-> kids]
Turn(dir) == IF dir = "LR" THEN "TB" ELSE "LR"
SumN(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxN(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)
(* The size that a cell asks for. *)
RECURSIVE Asks(_, _)
Asks(c, dir) == IF c.t = "text" THEN <<c.w, c.h>>
                ELSE LET s == [j \in 1..Len(c.kids) |-> Asks(c.kids[j], Turn(dir))]
                         ws == [j \in 1..Len(s) |-> s[j][1]]
                         hs == [j \in 1..Len(s) |-> s[j][2]]
                     IN IF dir = "LR" THEN <<SumN(ws), MaxN(hs)>> ELSE <<MaxN(ws), SumN(hs)>>
(* The boxes of the kids of a row; a box is [x, y, w, h].                   *)
Shares(c, dir, b) ==
   LET s == [j \in 1..Len(c.kids) |-> Asks(c.kids[j], Turn(dir))]
       along == [j \in 1..Len(s) |-> IF dir = "LR" THEN s[j][1] ELSE s[j][2]]
       total == SumN(along)
       before(j) == SumN(SubSeq(along, 1, j - 1))
   IN [j \in 1..Len(s) |->
         IF dir = "LR"
         THEN [x |-> Plus(b.x, Times(b.w, Fr(before(j), total))), y |-> b.y, w |-> Times(b.w, Fr(along[j], total)), h |-> b.h]
         ELSE [x |-> b.x, y |-> Plus(b.y, Times(b.h, Fr(before(j), total))), w |-> b.w, h |-> Times(b.h, Fr(along[j], total))]]
(* todo: boxes still to be divided; leaves: boxes of the texts, in order.    *)
VARIABLES todo, leaves, outer
rvars == <<todo, leaves, outer>>
Divide == /\ todo # <<>> /\ todo[1].c.t = "row"
          /\ LET n == todo[1]
                 s == Shares(n.c, n.dir, n.b)
             IN todo' = [j \in 1..Len(s) |-> [c |-> n.c.kids[j], dir |-> Turn(n.dir), b |-> s[j]]] \o SubSeq(todo, 2, Len(todo))
          /\ UNCHANGED <<leaves, outer>>
Write == /\ todo # <<>> /\ todo[1].c.t = "text"
         /\ leaves' = Append(leaves, [c |-> todo[1].c, b |-> todo[1].b]) /\ todo' = SubSeq(todo, 2, Len(todo))
         /\ UNCHANGED outer
Boxes == [j \in 1..(Len(leaves) + Len(todo)) |-> IF j <= Len(leaves) THEN leaves[j].b ELSE todo[j - Len(leaves)].b]
EndX(b) == Plus(b.x, b.w)
EndY(b) == Plus(b.y, b.h)
Within(b, o) == AtMostF(o.x, b.x) /\ AtMostF(o.y, b.y) /\ AtMostF(EndX(b), EndX(o)) /\ AtMostF(EndY(b), EndY(o))
ApartB(a, b) == AtMostF(EndX(a), b.x) \/ AtMostF(EndX(b), a.x) \/ AtMostF(EndY(a), b.y) \/ AtMostF(EndY(b), a.y)
Area(b) == Times(b.w, b.h)
(* At every moment the boxes tile the outer box. *)
Tiles == /\ \A j \in 1..Len(Boxes) : Within(Boxes[j], outer)
         /\ \A j, k \in 1..Len(Boxes) : j < k => ApartB(Boxes[j], Boxes[k])
         /\ FoldLeft(LAMBDA a, b : Plus(a, Area(b)), <<0, 1>>, Boxes) = Area(outer)
(* Every cell gets at least what it asks for. *)
Roomy == /\ \A j \in 1..Len(todo) : LET s == Asks(todo[j].c, todo[j].dir)
                                     IN AtMostF(Whole(s[1]), todo[j].b.w) /\ AtMostF(Whole(s[2]), todo[j].b.h)
         /\ \A j \in 1..Len(leaves) : AtMostF(Whole(leaves[j].c.w), leaves[j].b.w) /\ AtMostF(Whole(leaves[j].c.h), leaves[j].b.h)
=============================================================================
