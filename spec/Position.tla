------------------------------ MODULE Position ------------------------------
(***************************************************************************)
(* The place of a shape (core/geometry.rs Position).  All numbers are in   *)
(* half pixels, so that the middle of every box is a whole number.         *)
(*   m  the middle of the box     s  its size                               *)
(*   c  the center, relative to the middle: what edges aim at               *)
(*   h  the halo, added to the size, half of it on either side              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE pos
P2(v) == <<2 * v[1], 2 * v[2]>>
At(m, s, c, h) == [m |-> P2(m), s |-> P2(s), c |-> P2(c), h |-> P2(h)]
Size(p, halo) == IF halo THEN <<p.s[1] + p.h[1], p.s[2] + p.h[2]>> ELSE p.s
(* Sizes are even in half pixels: the halves below are exact. *)
BoxOf(p, halo) == LET z == Size(p, halo) IN
   <<p.m[1] - z[1] \div 2, p.m[2] - z[2] \div 2, p.m[1] - z[1] \div 2 + z[1], p.m[2] - z[2] \div 2 + z[2]>>
Center(p) == <<p.m[1] + p.c[1], p.m[2] + p.c[2]>>
(********************************* steps ************************************)
MoveTo(q) == pos' = [pos EXCEPT !.m = <<2 * q[1] - pos.c[1], 2 * q[2] - pos.c[2]>>]
Translate(d) == pos' = [pos EXCEPT !.m = <<@[1] + 2 * d[1], @[2] + 2 * d[2]>>]
SetX(x) == pos' = [pos EXCEPT !.m[1] = 2 * x - pos.c[1]]
SetY(y) == pos' = [pos EXCEPT !.m[2] = 2 * y - pos.c[2]]
Shift(axis, d) == pos' = [pos EXCEPT !.m[axis] = @ + d]
ToTop(y) == Shift(2, 2 * y - BoxOf(pos, TRUE)[2])
ToLeft(x) == Shift(1, 2 * x - BoxOf(pos, TRUE)[1])
ToRight(x) == Shift(1, 2 * x - BoxOf(pos, TRUE)[3])
AlignX(x, left) == IF left THEN ToLeft(x) ELSE ToRight(x)
Resize(z) == pos' = [pos EXCEPT !.s = P2(z)]
Recenter(c) == pos' = [pos EXCEPT !.c = P2(c)]
Turn(v) == <<v[2], v[1]>>
Flip == pos' = [m |-> Turn(pos.m), s |-> Turn(pos.s), c |-> Turn(pos.c), h |-> Turn(pos.h)]
Ask == UNCHANGED pos
InX(p, lo, hi, halo) == BoxOf(p, halo)[1] >= 2 * lo /\ BoxOf(p, halo)[3] <= 2 * hi
(* The center has to stay within the reach of the size. *)
CenterFits(c) == LET d == P2(c) IN (IF d[1] < 0 THEN -d[1] ELSE d[1]) < pos.s[1] /\ (IF d[2] < 0 THEN -d[2] ELSE d[2]) < pos.s[2]
=============================================================================
