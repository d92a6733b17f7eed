------------------------------ MODULE Gen_Dags ------------------------------
(* Every acyclic graph over K nodes, with every edge up to M times.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS K, M
VARIABLES g, at
SortPairs == [q \in 1..((K * (K - 1)) \div 2) |->
   LET a == CHOOSE x \in 0..(K-1) : /\ (x * (2 * K - x - 1)) \div 2 < q
                                    /\ q <= ((x + 1) * (2 * K - x - 2)) \div 2
   IN <<a, a + q - (a * (2 * K - a - 1)) \div 2>>]
Init == g = <<>> /\ at = 1
Next == /\ at <= Len(SortPairs) /\ at' = at + 1
        /\ \E m \in 0..M : g' = g \o [j \in 1..m |-> SortPairs[at]]
Emit == at > Len(SortPairs) => PrintT("@@" \o ToJson([n |-> K, edges |-> g]))
=============================================================================
