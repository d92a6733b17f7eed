------------------------------ MODULE RankedDag ------------------------------
(***************************************************************************)
(* The ranked DAG container (layout/src/adt/dag.rs).                       *)
(*   n      number of nodes; handles are 0..n-1                            *)
(*   edges  a function <<from, to>> -> multiplicity (a bag of edges)       *)
(*   rows   the levels, each a sequence of handles                         *)
(***************************************************************************)
EXTENDS Ranks

CONSTANTS MaxNodes, MaxEdges, MaxLevel

VARIABLES n, edges, rows
vars == <<n, edges, rows>>

Init == n = 0 /\ edges = E0 /\ rows = <<>>

NewNodes(k) == /\ n' = n + k
               /\ rows' = LET r == IF rows = <<>> /\ k > 0 THEN << <<>> >> ELSE rows
                          IN IF k = 0 THEN rows
                             ELSE [r EXCEPT ![1] = @ \o [j \in 1..k |-> n + j - 1]]
               /\ UNCHANGED edges
AddEdge(a, b) == /\ edges' = AddE(edges, <<a, b>>)
                 /\ UNCHANGED <<n, rows>>
RemoveEdge(a, b) == /\ edges' = IF Mult(edges, <<a, b>>) = 0 THEN edges
                                ELSE DelE(edges, <<a, b>>)
                    /\ UNCHANGED <<n, rows>>
Move(a, L, before) == /\ rows' = MoveRow(rows, a, L, before)
                      /\ UNCHANGED <<n, edges>>
Rank == /\ n > 0 /\ Acyclic(edges)
        /\ rows' = CanonicalRanking(edges, n)
        /\ UNCHANGED <<n, edges>>
Clear == n' = 0 /\ edges' = E0 /\ rows' = <<>>

Next == \/ n < MaxNodes /\ NewNodes(1)
        \/ \E a, b \in NodesOf(n) : NumEdges(edges) < MaxEdges /\ AddEdge(a, b)
        \/ \E a, b \in NodesOf(n) : RemoveEdge(a, b)
        \/ \E a \in NodesOf(n), L \in 0..MaxLevel : Move(a, L, <<>>)
        \/ \E a, m \in NodesOf(n) : a # m /\ Move(a, LevelOf(rows, m), <<m>>)
        \/ Rank
        \/ Clear
Spec == Init /\ [][Next]_vars

WellFormed == /\ WellRanked(rows, n)
              /\ \A e \in DOMAIN edges : e[1] < n /\ e[2] < n /\ edges[e] > 0
(* Ranking puts every edge downwards. *)
RankingDescends ==
   n > 0 /\ Acyclic(edges) =>
      LET rs == CanonicalRanking(edges, n) IN
      /\ IsRanking(rs, edges, n)
      /\ \A e \in DOMAIN edges : e[1] # e[2] => LevelOf(rs, e[1]) < LevelOf(rs, e[2])
      /\ \A L \in 1..Len(rs) : rs[L] # <<>>
(* A move changes the place of one node only. *)
MoveIsLocal ==
   \A a \in NodesOf(n), L \in 0..MaxLevel :
      LET rs == MoveRow(rows, a, L, <<>>) IN
      /\ LevelOf(rs, a) = L
      /\ WellRanked(rs, n)
      /\ \A j \in 1..Len(rows) : Without(rs[j], a) = Without(rows[j], a)
ReachIsTransitive ==
   \A a, b, c \in NodesOf(n) :
      Reach(edges, a, b) /\ Reach(edges, b, c) => Reach(edges, a, c)
=============================================================================
