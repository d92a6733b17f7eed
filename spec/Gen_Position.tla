---------------------------- MODULE Gen_Position -----------------------------
EXTENDS Position, Json
CONSTANTS Sizes, Halos, Coords, Depth
VARIABLES hist, first
vars == <<pos, hist, first>>
Three == {-1, 0, 3}
Two == {-1, 4}
Pairs(S) == S \X S
Init == /\ pos \in {At(<<0, 0>>, s, c, h) : s \in Pairs(Sizes), c \in {<<0, 0>>, <<1, 0>>}, h \in Pairs(Halos)}
        /\ hist = <<>> /\ first = pos
Log(o, a) == hist' = Append(hist, [o |-> o, a |-> a]) /\ first' = first
Next == /\ Len(hist) < Depth
        /\ \/ \E q \in Pairs(Coords) : \/ MoveTo(q) /\ Log("move", q)
                                       \/ Translate(q) /\ Log("trans", q)
           \/ \E x \in Coords : \/ SetX(x) /\ Log("setx", <<x>>)
                                \/ SetY(x) /\ Log("sety", <<x>>)
                                \/ ToTop(x) /\ Log("top", <<x>>)
                                \/ ToLeft(x) /\ Log("left", <<x>>)
                                \/ ToRight(x) /\ Log("right", <<x>>)
                                \/ \E f \in {0, 1} : AlignX(x, f = 1) /\ Log("alignx", <<x, f>>)
                                \/ \E y \in Coords, f \in {0, 1} : x <= y /\ Ask /\ Log("inr", <<x, y, f>>)
           \/ \E z \in Pairs(Sizes) : Resize(z) /\ Log("size", z)
           \/ \E c \in {<<0, 0>>, <<1, 0>>, <<0, 1>>} : CenterFits(c) /\ Recenter(c) /\ Log("center", c)
           \/ Flip /\ Log("flip", <<>>)
Spec == Init /\ [][Next]_vars
(* One box: the halo around it is even on both sides. *)
OneBox == LET b == BoxOf(pos, FALSE) o == BoxOf(pos, TRUE) IN
          /\ b[1] - o[1] = o[3] - b[3] /\ b[2] - o[2] = o[4] - b[4]
          /\ b[3] - b[1] = pos.s[1] /\ o[4] - o[2] = pos.s[2] + pos.h[2]
          /\ 2 * pos.m[1] = b[1] + b[3] /\ 2 * pos.m[2] = o[2] + o[4]
Last == hist'[Len(hist')]
Does(o) == Last.o = o
OnlyPlace == pos'.s = pos.s /\ pos'.c = pos.c /\ pos'.h = pos.h
Exact == [][hist' # hist =>
   /\ Does("move") => Center(pos') = P2(Last.a) /\ OnlyPlace
   /\ Does("trans") => OnlyPlace /\ Center(pos')[1] - Center(pos)[1] = 2 * Last.a[1]
   /\ Does("setx") => OnlyPlace /\ Center(pos')[1] = 2 * Last.a[1] /\ pos'.m[2] = pos.m[2]
   /\ Does("sety") => OnlyPlace /\ Center(pos')[2] = 2 * Last.a[1] /\ pos'.m[1] = pos.m[1]
   /\ Does("top") => OnlyPlace /\ BoxOf(pos', TRUE)[2] = 2 * Last.a[1] /\ pos'.m[1] = pos.m[1]
   /\ Does("left") => OnlyPlace /\ BoxOf(pos', TRUE)[1] = 2 * Last.a[1] /\ pos'.m[2] = pos.m[2]
   /\ Does("right") => OnlyPlace /\ BoxOf(pos', TRUE)[3] = 2 * Last.a[1] /\ pos'.m[2] = pos.m[2]
   /\ Does("size") => pos'.m = pos.m /\ pos'.c = pos.c /\ pos'.h = pos.h
   /\ Does("center") => pos'.m = pos.m /\ pos'.s = pos.s
   /\ Does("flip") => [m |-> Turn(pos'.m), s |-> Turn(pos'.s), c |-> Turn(pos'.c), h |-> Turn(pos'.h)] = pos]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([ops |-> hist, init |-> first]))
Forget == pos
=============================================================================
