------------------------------ MODULE Gen_Look ------------------------------
(* One node, or one edge, under every combination of the attributes that the *)
(* builder understands: each is missing, well-formed or malformed.           *)
EXTENDS Builder, Json
VARIABLES who, todo, list
NodeKeys == <<"shape", "color", "fillcolor", "style", "fontsize", "width", "label">>
EdgeKeys == <<"color", "style", "fontsize", "penwidth", "label", "fillcolor", "shape">>
Values ==
   ("shape" :> {"box", "circle", "doublecircle", "record", "Mrecord", "star"})
 @@ ("color" :> {"red", "#1A2b3C", "transparent", "nosuch"})
 @@ ("fillcolor" :> {"green", "#01020304", "blue:red", "red:blue:green"})
 @@ ("style" :> {"filled", "dashed"})
 @@ ("fontsize" :> {"20", "1x"})
 @@ ("width" :> {"3"})
 @@ ("penwidth" :> {"0", "7", "-2"})
 @@ ("label" :> {"x|{<p> y|z}"})
Init == \/ who = "node" /\ todo = NodeKeys /\ list = <<>>
        \/ who = "edge" /\ todo = EdgeKeys /\ list = <<>>
Next == /\ todo # <<>> /\ todo' = Tail(todo) /\ who' = who
        /\ \/ list' = list
           \/ \E v \in Values[Head(todo)] : list' = Append(list, <<Head(todo), v>>)
Spec == Init /\ [][Next]_<<who, todo, list>>
A == SetAll(None, list)
(* What the documentation promises for every combination. *)
Documented ==
   /\ "shape" \notin DOMAIN A => ShapeOf(A) = "circle"
   /\ "color" \notin DOMAIN A => NodeLook(A).lc = "#000000ff"
   /\ "fontsize" \notin DOMAIN A => NodeLook(A).fs = 14 /\ EdgeLook(A).fs = 14
   /\ DOMAIN A \cap {"fillcolor", "style"} = {} => NodeLook(A).fc = <<"#ffffffff">>
   /\ NodeLook(A).rd > 0 <=> Get(A, "shape", "") = "Mrecord"
Emit == todo = <<>> => PrintT("@@" \o ToJson([who |-> who, list |-> list]))
=============================================================================
