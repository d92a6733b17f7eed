----------------------------- MODULE T_Lowering -----------------------------
(* Recorded lowerings of real graphs, stage by stage:                        *)
(*   built -> valid -> text -> long, and final after the single entry point.  *)
EXTENDS Lowering, Json, IOUtils
CONSTANT Subject        \* "C12", "C13" or "C14"
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
C == Cases[i]
Bag(succ) == FoldLeft(LAMBDA acc, a : FoldLeft(LAMBDA b, x : AddE(b, <<a, x>>), acc, succ[a + 1]),
                      E0, [j \in 1..Len(succ) |-> j - 1])
(* The container lists successors and predecessors of the same edges. *)
Flipped(bag) == [e \in {<<x[2], x[1]>> : x \in DOMAIN bag} |-> bag[<<e[2], e[1]>>]]
DagOk(d) == Len(d.succ) = d.n /\ Len(d.pred) = d.n /\ Flipped(Bag(d.succ)) = Bag(d.pred)
S(g) == [nodes |-> g.nodes, edges |-> g.edges, self |-> g.self, bag |-> Bag(g.dag.succ), rows |-> g.dag.rows]
O == C.out

Valid == LET b == S(O.built)
             v == S(O.valid)
             want == Canonical(b.edges)
         IN /\ v.nodes = b.nodes
            /\ SameBag(want.edges, v.edges) /\ SameBag(want.self, v.self)
            /\ DagOk(O.valid.dag) /\ v.bag = BagOfPaths([j \in 1..Len(v.edges) |-> v.edges[j].path])
            /\ Acyclic(v.bag)
Lower(g) == DagOk(g.dag) /\ IsLowered(S(O.valid), S(g))
(* The pipeline ranks by longest path, and sinks if it may optimize. *)
TextNodes == Len(O.text.nodes)
Ranked == LET bag == Bag(O.text.dag.succ)
              lp == LongestPath(bag, TextNodes)
              lvl == LevelsIn(O.long.dag.rows, Len(O.long.nodes))
              want == IF C.noopt THEN lp ELSE SinkAll(bag, lp)
          IN \A a \in NodesOf(TextNodes) : lvl[a] = want[a]

Init == i = 0 /\ st = "none"
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ st' = "built"
Go(a, b) == st = a /\ C.outcome = "ok" /\ st' = b /\ i' = i
Next == \/ Pick
        \/ Go("built", "valid")  /\ ((Subject = "C12" => Valid) = TRUE)
        \/ Go("valid", "long")   /\ ((Subject = "C13" => Lower(O.long)) = TRUE) /\ ((Subject = "C14" => Ranked) = TRUE)
        \/ Go("long", "final")   /\ ((Subject = "C13" => Lower(O.final)) = TRUE)
        \/ st = "final" /\ UNCHANGED <<i, st>>
=============================================================================
