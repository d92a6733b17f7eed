------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The plane of the drawings (core/geometry.rs) over integers: the answers *)
(* are exact, so there is no rounding to hide behind.  Points are <<x, y>>, *)
(* boxes <<x0, y0, x1, y1>> with x0 <= x1 and y0 <= y1.  Results in         *)
(* thousandths where the code computes with fractions.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
(******************************* predicates *********************************)
InRange(lo, hi, x) == lo <= x /\ x <= hi
(* Boxes that only touch do not intersect. *)
Apart(b, c) == b[3] <= c[1] \/ c[3] <= b[1] \/ b[4] <= c[2] \/ c[4] <= b[2]
BoxesIntersect(b, c) == ~Apart(b, c)
(* On which side of the line through p and q the point r lies. *)
Side(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Corners(b) == {<<b[1], b[2]>>, <<b[1], b[4]>>, <<b[3], b[2]>>, <<b[3], b[4]>>}
Meets(p, q, b) ==       \* a closed segment and a closed box, by separating axes
   /\ MaxI(p[1], q[1]) >= b[1] /\ MinI(p[1], q[1]) <= b[3]
   /\ MaxI(p[2], q[2]) >= b[2] /\ MinI(p[2], q[2]) <= b[4]
   /\ ~(\A c \in Corners(b) : Side(p, q, c) > 0) /\ ~(\A c \in Corners(b) : Side(p, q, c) < 0)
(* A slanted line that has the box on one side and passes exactly through a  *)
(* corner of it: the answer depends on how a fraction is rounded, unless the *)
(* slope is a fraction that a floating point number can be.                  *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IsSlope(dx, dy) == AbsI(dx) \div Gcd(AbsI(dx), AbsI(dy)) \in {1, 2, 4, 8, 16, 32, 64, 128}
Grazes(p, q, b) == /\ p[1] # q[1] /\ p[2] # q[2] /\ ~IsSlope(q[1] - p[1], q[2] - p[2])
                   /\ \E c \in Corners(b) : Side(p, q, c) = 0
                   /\ \/ \A c \in Corners(b) : Side(p, q, c) >= 0
                      \/ \A c \in Corners(b) : Side(p, q, c) <= 0
(* The same by clipping the segment: a parameter t = n/d with 0 <= t <= 1    *)
(* at which it is inside all four sides.  Bounds are kept as fractions.      *)
Leq(f, g) == f[1] * g[2] <= g[1] * f[2]        \* denominators are positive
MaxF(f, g) == IF Leq(f, g) THEN g ELSE f
MinF(f, g) == IF Leq(f, g) THEN f ELSE g
Clip(s, from, to, lo, hi) ==
   LET d == to - from IN
   IF d = 0 THEN IF lo <= from /\ from <= hi THEN s ELSE [s EXCEPT !.ok = FALSE]
   ELSE LET a == IF d > 0 THEN <<lo - from, d>> ELSE <<from - hi, -d>>
            z == IF d > 0 THEN <<hi - from, d>> ELSE <<from - lo, -d>>
        IN [s EXCEPT !.lo = MaxF(@, a), !.hi = MinF(@, z)]
ClipMeets(p, q, b) ==
   LET s == Clip(Clip([ok |-> TRUE, lo |-> <<0, 1>>, hi |-> <<1, 1>>], p[1], q[1], b[1], b[3]), p[2], q[2], b[2], b[4])
   IN s.ok /\ Leq(s.lo, s.hi)
(***************************** small functions ******************************)
Sorted(s) == SortSeq(s, <)
Median2(s) == LET t == Sorted(s)
                  m == Len(t)
              IN IF m % 2 = 1 THEN 2 * t[(m + 1) \div 2] ELSE t[m \div 2] + t[m \div 2 + 1]
(* The same by counting: at most half of the values on either side. *)
IsMedian2(s, v) == /\ 2 * Cardinality({j \in 1..Len(s) : 2 * s[j] < v}) <= Len(s)
                   /\ 2 * Cardinality({j \in 1..Len(s) : 2 * s[j] > v}) <= Len(s)
Quarter(x, y, t) == CASE t % 4 = 0 -> <<x, y>> [] t % 4 = 1 -> <<-y, x>> [] t % 4 = 2 -> <<-x, -y>> [] OTHER -> <<y, -x>>
(******************************** distances *********************************)
GTol == 2
NearG(a, b) == AbsI(a - b) <= GTol
Sq(a) == a * a
(* r thousandths is the root of s, give or take a hundredth. *)
IsRoot(r, s) == LET h == r \div 10 IN r \in 0..400000 /\ Sq(MaxI(0, h - 1)) <= s * 10000 /\ s * 10000 <= Sq(h + 2)
(* The vector v (thousandths) points along w (integers), not against it. *)
Along(v, w) == /\ AbsI(v[1] * w[2] - v[2] * w[1]) <= GTol * (AbsI(w[1]) + AbsI(w[2]))
               /\ v[1] * w[1] + v[2] * w[2] > 0
LongAs(v, s) == LET r == Sq(v[1]) + Sq(v[2]) IN Sq(MaxI(0, 1000 * s - 4)) <= r /\ r <= Sq(1000 * s + 4)
=============================================================================
