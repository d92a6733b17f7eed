---------------------------- MODULE MC_RecordBox ----------------------------
(* Every record of up to three levels in every box that is large enough:     *)
(* the cells always tile the box and all texts fit.                          *)
EXTENDS RecordBox
CONSTANTS Sizes, Deep
Texts == {Text(w, h) : w \in Sizes, h \in {1, 2}}
OneT == Text(1, 2)
Upto(S, n) == UNION {[1..m -> S] : m \in 1..n}
Inner == Texts \cup {Row(k) : k \in Upto(Texts, 2)}
Mid == {Row(k) : k \in Upto(Inner, 2)}
Roots == {OneT} \cup {Row(k) : k \in Upto(Inner, 2)}
         \cup {Row(<<m, OneT>>) : m \in Mid} \cup (IF Deep THEN {Row(<<OneT, m, Text(2, 1)>>) : m \in Mid} ELSE {Row(<<m>>) : m \in Mid})
Init == /\ leaves = <<>>
        /\ \E c \in Roots : \E dir \in {"LR", "TB"} : \E pad \in {<<0, 0>>, <<1, 2>>} :
             /\ outer = [x |-> <<0, 1>>, y |-> <<0, 1>>, w |-> Whole(Asks(c, dir)[1] + pad[1]), h |-> Whole(Asks(c, dir)[2] + pad[2])]
             /\ todo = <<[c |-> c, dir |-> dir, b |-> outer]>>
Done == todo = <<>> /\ UNCHANGED rvars
Next == Divide \/ Write \/ Done
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)
Ends == <>(todo = <<>>)
=============================================================================
