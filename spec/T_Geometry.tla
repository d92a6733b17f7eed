----------------------------- MODULE T_Geometry -----------------------------
(* Answers of the real functions. *)
EXTENDS Geometry, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
vars == <<i, l>>
C == Cases[i]
Q == C.qs[l]
A == Q.a
R == C.out.rs[l].r
B01(v) == IF v THEN <<1>> ELSE <<0>>
Vec(k) == <<R[k + 2] - R[k], R[k + 3] - R[k + 1]>>     \* from point k to the next
(* The control point stands off from the first point towards the other end   *)
(* f (thousandths). Directions are compared after scaling both to length     *)
(* about one hundred, unless the points are too close for that.              *)
Shrink(w) == LET m == MaxI(AbsI(w[1]), AbsI(w[2])) IN <<(w[1] * 100) \div m, (w[2] * 100) \div m>>
Toward(f, force) ==
   LET w == <<f[1] - R[1], f[2] - R[2]>>
   IN /\ LongAs(Vec(1), force)
      /\ MaxI(AbsI(w[1]), AbsI(w[2])) > 200 =>
           LET u == Shrink(w)
               v == Shrink(Vec(1))
           IN AbsI(u[1] - v[1]) <= 3 /\ AbsI(u[2] - v[2]) <= 3
(* Edges that run straight up, down or sideways from a connector stay so. *)
Aligned(c, f, t, force) ==
   LET ar == <<c[1] - f[1], c[2] - f[2]>>
       rb == <<t[1] - c[1], t[2] - c[2]>>
       opposite == 16 * Sq(Side(<<0, 0>>, ar, rb)) <= (Sq(ar[1]) + Sq(ar[2])) * (Sq(rb[1]) + Sq(rb[2])) /\ ar[1] * rb[1] + ar[2] * rb[2] < 0
   IN (ar # <<0, 0>> /\ rb # <<0, 0>> /\ ~opposite) =>
        CASE rb[1] = 0 \/ rb[2] = 0 -> LongAs(Vec(1), force) /\ Along(Vec(1), <<-rb[1], -rb[2]>>)
          [] ar[1] = 0 \/ ar[2] = 0 -> LongAs(Vec(1), force) /\ Along(Vec(1), <<-ar[1], -ar[2]>>)
          [] OTHER -> TRUE
OnBox(x, y, b) == \/ /\ NearG(x, b[1]) \/ NearG(x, b[3])
                     /\ y >= b[2] - GTol /\ y <= b[4] + GTol
                  \/ /\ NearG(y, b[2]) \/ NearG(y, b[4])
                     /\ x >= b[1] - GTol /\ x <= b[3] + GTol
(* The other end is beyond the side that the point is on. *)
Faces(x, y, b, fx, fy) ==
   \/ (NearG(x, b[1]) /\ fx <= b[1] + GTol) \/ (NearG(x, b[3]) /\ fx >= b[3] - GTol)
   \/ (NearG(y, b[2]) /\ fy <= b[2] + GTol) \/ (NearG(y, b[4]) /\ fy >= b[4] - GTol)
Outside(fx, fy, b) == fx < b[1] \/ fx > b[3] \/ fy < b[2] \/ fy > b[4]
(* On the ellipse: the squares of the distances in thousandths of the axes   *)
(* add up to a million.                                                      *)
OnOval(dx, dy, a, b) == LET u == (dx * 1000) \div a
                            v == (dy * 1000) \div b
                        IN AbsI(u * u + v * v - 1000000) <= 8000 + 12000000 \div MinI(a, b)
(* What edges aim at, in quarters: the center of a box (center, size), or the *)
(* center of its nearer half when the other end lies beside it.              *)
Aim(b, fx) == LET left == 2 * (fx - b[1]) < -b[3]
                  right == 2 * (fx - b[1]) > b[3]
              IN <<4 * b[1] + (IF left THEN -b[3] ELSE IF right THEN b[3] ELSE 0), 4 * b[2]>>
Answer ==
   CASE Q.q = "segrect" -> LET p == <<A[1], A[2]>> q == <<A[3], A[4]>> b == <<A[5], A[6], A[7], A[8]>>
                           IN Grazes(p, q, b) \/ R = B01(Meets(p, q, b))
     [] Q.q = "boxes" -> R = B01(BoxesIntersect(<<A[1], A[2], A[3], A[4]>>, <<A[5], A[6], A[7], A[8]>>))
     [] Q.q = "range" -> R = B01(InRange(A[1], A[2], A[3]))
     [] Q.q = "median" -> R = <<Median2(A)>>
     [] Q.q = "square" -> R = <<1000 * MaxI(A[1], A[2]), 1000 * MaxI(A[1], A[2])>>
     [] Q.q = "pad" -> R = <<1000 * (A[1] + A[3]), 1000 * (A[2] + A[3])>>
     [] Q.q = "arith" -> R = <<1000 * (A[1] + A[3]), 1000 * (A[2] + A[4]), 1000 * (A[1] - A[3]), 1000 * (A[2] - A[4]),
                               -1000 * A[1], -1000 * A[2], 1000 * A[2], 1000 * A[1], 1000 * A[1] * A[5], 1000 * A[2] * A[5]>>
     [] Q.q = "rot" -> LET t == Quarter(A[1] - A[3], A[2] - A[4], A[5]) IN
                       NearG(R[1], 1000 * (A[3] + t[1])) /\ NearG(R[2], 1000 * (A[4] + t[2]))
     [] Q.q = "dist" -> IsRoot(R[1], Sq(A[1] - A[3]) + Sq(A[2] - A[4]))
     [] Q.q = "lerp" -> R = <<250 * (A[5] * A[1] + (4 - A[5]) * A[3]), 250 * (A[5] * A[2] + (4 - A[5]) * A[4])>>
     [] Q.q = "vec" -> /\ R[1] = 1000 * A[1] /\ R[2] = 1000 * A[2]
                       /\ LongAs(Vec(1), A[5])
                       /\ IF A[1] = A[3] /\ A[2] = A[4] THEN TRUE ELSE Along(Vec(1), <<A[3] - A[1], A[4] - A[2]>>)
     [] Q.q = "box" -> LET b == <<1000 * A[1] - 500 * A[3], 1000 * A[2] - 500 * A[4], 1000 * A[1] + 500 * A[3], 1000 * A[2] + 500 * A[4]>>
                           f == <<1000 * A[5], 1000 * A[6]>>
                       IN /\ OnBox(R[1], R[2], b) /\ (Outside(f[1], f[2], b) => Faces(R[1], R[2], b, f[1], f[2]))
                          /\ Toward(f, A[7])
                          /\ LET aim == Aim(<<A[1], A[2], A[3], A[4]>>, A[5])
                                 d == <<4 * A[5] - aim[1], 4 * A[6] - aim[2]>>
                             IN d # <<0, 0>> => Along(<<R[1] - 250 * aim[1], R[2] - 250 * aim[2]>>, d)
     [] Q.q = "circle" -> LET dx == R[1] - 1000 * A[1]
                              dy == R[2] - 1000 * A[2]
                          IN /\ OnOval(dx, dy, 500 * A[3], 500 * A[4])
                             /\ (A[5] # A[1] \/ A[6] # A[2]) => Along(<<dx, dy>>, <<A[5] - A[1], A[6] - A[2]>>)
                             /\ Toward(<<1000 * A[5], 1000 * A[6]>>, A[7])
     [] Q.q = "pass" -> /\ R[1] = 1000 * A[3] /\ R[2] = 1000 * A[4]
                        /\ Sq(Vec(1)[1]) + Sq(Vec(1)[2]) <= Sq(1000 * A[9] + 4)
                        /\ Aligned(<<A[3], A[4]>>, <<A[5], A[6]>>, <<A[7], A[8]>>, A[9])
Init == i = 0 /\ l = 1
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ l' = l
        \/ i > 0 /\ l <= Len(C.qs) /\ C.outcome = "ok" /\ C.out.rs[l].oc = "ok" /\ (Answer = TRUE) /\ l' = l + 1 /\ i' = i
        \/ i > 0 /\ l = Len(C.qs) + 1 /\ UNCHANGED vars
=============================================================================
