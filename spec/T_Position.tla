---------------------------- MODULE T_Position ------------------------------
(* Histories of real positions: every observation after every operation.     *)
EXTENDS Position, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
vars == <<i, l, pos>>
C == Cases[i]
None == [m |-> <<0, 0>>, s |-> <<0, 0>>, c |-> <<0, 0>>, h |-> <<0, 0>>]
Init == i = 0 /\ l = 0 /\ pos = None
(* Thousandths of a pixel. *)
K(v) == [j \in 1..Len(v) |-> 500 * v[j]]
Seen(p, o) ==
   LET b == BoxOf(p, FALSE)
       h == BoxOf(p, TRUE)
       c == Center(p)
   IN /\ o.b = K(b) /\ o.o = K(h) /\ o.c = K(c) /\ o.m = K(p.m)
      /\ o.s = K(Size(p, FALSE)) /\ o.t = K(Size(p, TRUE))
      /\ o.lr = K(<<b[1], b[3], h[1], h[3]>>) /\ o.tb = K(<<b[2], b[4], h[2], h[4]>>)
      /\ o.d = K(<<c[1] - b[1], b[3] - c[1], c[1] - h[1], h[3] - c[1]>>)
Op == C.ops[l]
A == Op.a
Step == CASE Op.o = "move" -> MoveTo(A)          [] Op.o = "trans" -> Translate(A)
          [] Op.o = "setx" -> SetX(A[1])         [] Op.o = "sety" -> SetY(A[1])
          [] Op.o = "top" -> ToTop(A[1])         [] Op.o = "left" -> ToLeft(A[1])
          [] Op.o = "right" -> ToRight(A[1])     [] Op.o = "alignx" -> AlignX(A[1], A[2] = 1)
          [] Op.o = "size" -> Resize(A)          [] Op.o = "center" -> CenterFits(A) /\ Recenter(A)
          [] Op.o = "flip" -> Flip               [] Op.o = "inr" -> Ask
R == C.out.steps[l + 1]
Begin == /\ i > 0 /\ l = 0 /\ C.outcome = "ok"
         /\ pos' = At(C.init.m, C.init.s, C.init.c, C.init.h)
         /\ (Seen(pos', C.out.steps[1].obs) = TRUE) /\ l' = 1 /\ i' = i
Do == /\ i > 0 /\ l \in 1..Len(C.ops) /\ Step /\ R.oc = "ok"
      /\ (Seen(pos', R.obs) = TRUE)
      /\ Op.o = "inr" => R.in = InX(pos, A[1], A[2], A[3] = 1)
      /\ l' = l + 1 /\ i' = i
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ UNCHANGED <<l, pos>>
        \/ Begin \/ Do
        \/ i > 0 /\ l = Len(C.ops) + 1 /\ UNCHANGED vars
=============================================================================
