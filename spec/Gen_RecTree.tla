---------------------------- MODULE Gen_RecTree ----------------------------
(* Labels of records with up to three levels of cells, some with ports.      *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
VARIABLES label, depth
Words == {"a", "<p>some words", "<q>l1\nl2"}
Join2(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "|" \o b, "", s)
Rows(S, n) == UNION {{Join2(k) : k \in [1..m -> S]} : m \in 1..n}
L1 == Words \cup {"{" \o r \o "}" : r \in Rows(Words, 2)}
L2 == L1 \cup {"{" \o r \o "}" : r \in {Join2(<<a, b>>) : a \in L1, b \in {"b", "{c|<p>d}"}}}
Init == label = "" /\ depth = 0
Next == /\ depth < 3 /\ \E c \in L2 : (depth = 2 => c \in L1) /\ label' = (IF label = "" THEN c ELSE label \o "|" \o c)
        /\ depth' = depth + 1
Spec == Init /\ [][Next]_<<label, depth>>
Emit == depth > 0 => PrintT("@@" \o ToJson(label))
=============================================================================
