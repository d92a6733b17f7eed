-------------------------------- MODULE Ranks --------------------------------
(***************************************************************************)
(* Bags of edges, reachability, longest-path levels and rows: the          *)
(* mathematics shared by the ranked DAG container, lowering, the rank and  *)
(* crossing optimizers and the placer.                                     *)
(*   a bag of edges is a function <<from, to>> -> multiplicity;            *)
(*   rows is a sequence of levels, each a sequence of node handles.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Folds

NodesOf(k) == 0..(k-1)
E0 == [e \in {} |-> 0]
Mult(es, e) == IF e \in DOMAIN es THEN es[e] ELSE 0
AddE(es, e) == (e :> (Mult(es, e) + 1)) @@ es
DelE(es, e) == IF Mult(es, e) <= 1
               THEN [x \in DOMAIN es \ {e} |-> es[x]]
               ELSE [es EXCEPT ![e] = @ - 1]
SumMult(es, S) == FoldSet(LAMBDA e, acc : es[e] + acc, 0, S)
NumEdges(es) == SumMult(es, DOMAIN es)

Succ(es, a) == {e[2] : e \in {x \in DOMAIN es : x[1] = a}}
Pred(es, a) == {e[1] : e \in {x \in DOMAIN es : x[2] = a}}
OutDeg(es, a) == SumMult(es, {x \in DOMAIN es : x[1] = a})
InDeg(es, a)  == SumMult(es, {x \in DOMAIN es : x[2] = a})

(* Reachability: the least set that holds a and is closed under Succ. *)
RECURSIVE Close(_, _)
Close(es, S) == LET T == S \cup UNION {Succ(es, x) : x \in S}
                IN IF T = S THEN S ELSE Close(es, T)
ReachSet(es, a) == Close(es, {a})
Reach(es, a, b) == b \in ReachSet(es, a)

(* A self edge is not a cycle for this container. *)
Acyclic(es) == \A e \in DOMAIN es : e[1] # e[2] => ~Reach(es, e[2], e[1])

(* The level of a node: the number of edges on the longest path into it.   *)
(* Computed by relaxation from level 0, which is the declarative least     *)
(* solution of lvl(b) >= lvl(a)+1 on every edge.                           *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Relax(_, _, _)
Relax(es, k, lvl) ==
   LET nxt == [b \in NodesOf(k) |->
                 LET P == {lvl[a] + 1 : a \in Pred(es, b) \ {b}}
                 IN IF P = {} THEN 0 ELSE MaxOf(P)]
   IN IF nxt = lvl THEN lvl ELSE Relax(es, k, nxt)
LongestPath(es, k) == Relax(es, k, [b \in NodesOf(k) |-> 0])

Elems(r) == {r[j] : j \in 1..Len(r)}
LevelsOf(rs, a) == {L \in 1..Len(rs) : a \in Elems(rs[L])}
LevelOf(rs, a) == (CHOOSE L \in LevelsOf(rs, a) : TRUE) - 1
NodeCount(rs) == FoldLeft(LAMBDA acc, r : acc + Len(r), 0, rs)
WellRanked(rs, k) == /\ \A a \in NodesOf(k) : Cardinality(LevelsOf(rs, a)) = 1
                     /\ NodeCount(rs) = k

(* Moving a node between rows. *)
Without(r, a) == SelectSeq(r, LAMBDA x : x # a)
RECURSIVE Pad(_, _)
Pad(rs, len) == IF Len(rs) >= len THEN rs ELSE Pad(Append(rs, <<>>), len)
InsertBefore(r, a, m) ==
   LET p == CHOOSE j \in 1..Len(r) : r[j] = m
   IN SubSeq(r, 1, p - 1) \o <<a>> \o SubSeq(r, p, Len(r))
MoveRow(rs, a, L, before) ==
   LET out == [j \in 1..Len(rs) |-> Without(rs[j], a)]
       big == Pad(out, L + 1)
   IN [big EXCEPT ![L + 1] = IF before = <<>> THEN Append(@, a)
                             ELSE InsertBefore(@, a, before[1])]

(* Rows that rank the nodes by longest path, whatever the order in a row. *)
IsRanking(rs, es, k) ==
   LET lp == LongestPath(es, k)
       top == MaxOf({lp[a] : a \in NodesOf(k)})
   IN /\ Len(rs) = top + 1
      /\ WellRanked(rs, k)
      /\ \A a \in NodesOf(k) : LevelOf(rs, a) = lp[a]
CanonicalRanking(es, k) ==
   LET lp == LongestPath(es, k)
       top == MaxOf({lp[a] : a \in NodesOf(k)})
   IN [L \in 1..(top + 1) |-> SelectSeq([j \in 1..k |-> j - 1], LAMBDA a : lp[a] = L - 1)]
=============================================================================
