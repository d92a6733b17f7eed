---------------------------- MODULE MC_Lowering ----------------------------
(* The lowering pipeline as a state machine over every small graph:          *)
(*   write -> canon -> text -> rank -> sink -> split -> cross -> loops -> done*)
(* Sinking, splitting and reordering happen in any order.                    *)
EXTENDS Lowering, Json
CONSTANTS K, MaxE, Labels
VARIABLES st, s, todo, g, was
vars == <<st, s, todo, g, was>>
Node(j) == [kind |-> "box", text |-> "", look |-> "n"]
Edge(j, f, t, lab) == [start |-> FALSE, end |-> TRUE, style |-> "normal", text |-> lab, look |-> <<"e", j>>,
                       sp |-> <<"s", j>>, dp |-> <<"d", j>>, prop |-> <<>>, path |-> <<f, t>>]
Empty == [nodes |-> [j \in 1..K |-> Node(j)], edges |-> <<>>, self |-> <<>>, bag |-> E0, rows |-> <<>>]
Init == st = "write" /\ s = Empty /\ todo = <<>> /\ g = Empty /\ was = <<>>
Write == /\ st = "write" /\ Len(todo) < MaxE
         /\ \E f, t \in NodesOf(K), lab \in Labels : todo' = Append(todo, Edge(Len(todo) + 1, f, t, lab))
         /\ UNCHANGED <<st, s, g, was>>
Written == /\ st = "write" /\ st' = "canon" /\ was' = todo /\ UNCHANGED <<s, todo, g>>
Canon == /\ st = "canon" /\ todo # <<>>
         /\ LET c == CanonStep([edges |-> s.edges, self |-> s.self, bag |-> s.bag], Head(todo)) IN
            s' = [s EXCEPT !.edges = c.edges, !.self = c.self, !.bag = c.bag]
         /\ todo' = Tail(todo) /\ UNCHANGED <<st, g, was>>
Canonized == /\ st = "canon" /\ todo = <<>> /\ st' = "text" /\ g' = s /\ UNCHANGED <<s, todo, was>>
Labelled(j) == s.edges[j].text # ""
Text == /\ st = "text" /\ \E j \in 1..Len(s.edges) : Labelled(j) /\ s' = SplitText(s, j)
        /\ UNCHANGED <<st, todo, g, was>>
Rank == /\ st = "text" /\ \A j \in 1..Len(s.edges) : ~Labelled(j)
        /\ s' = [s EXCEPT !.rows = CanonicalRanking(s.bag, Len(s.nodes))]
        /\ st' = "sink" /\ UNCHANGED <<todo, g, was>>
Sink == /\ st = "sink"
        /\ LET lvl == LevelsIn(s.rows, Len(s.nodes)) IN
           \E a \in NodesOf(Len(s.nodes)) : CanSink(s.bag, lvl, a) /\
              s' = [s EXCEPT !.rows = MoveRow(@, a, SinkLevel(s.bag, lvl, a), <<>>)]
        /\ UNCHANGED <<st, todo, g, was>>
Sunk == /\ st = "sink"
        /\ \A a \in NodesOf(Len(s.nodes)) : ~CanSink(s.bag, LevelsIn(s.rows, Len(s.nodes)), a)
        /\ st' = "split" /\ UNCHANGED <<s, todo, g, was>>
Split == /\ st = "split"
         /\ \E j \in 1..Len(s.edges) : \E q \in 1..(Len(s.edges[j].path) - 1) :
              IsLong(s.rows, s.edges[j].path, q) /\ s' = SplitLink(s, j, q)
         /\ UNCHANGED <<st, todo, g, was>>
IsSplit == \A j \in 1..Len(s.edges) : \A q \in 1..(Len(s.edges[j].path) - 1) : ~IsLong(s.rows, s.edges[j].path, q)
HasSplit == /\ st = "split" /\ IsSplit /\ st' = "cross" /\ UNCHANGED <<s, todo, g, was>>
SwapAt(r, p) == [r EXCEPT ![p] = r[p+1], ![p+1] = r[p]]
(* Any exchange of neighbours, as long as the result has no more crossings. *)
Cross == /\ st = "cross"
         /\ \E L \in 1..Len(s.rows) : \E p \in 1..(Len(s.rows[L]) - 1) :
              LET rs == [s.rows EXCEPT ![L] = SwapAt(@, p)] IN
              Crossings(s.bag, rs) < Crossings(s.bag, s.rows) /\ s' = [s EXCEPT !.rows = rs]
         /\ UNCHANGED <<st, todo, g, was>>
Crossed == st = "cross" /\ st' = "loops" /\ UNCHANGED <<s, todo, g, was>>
Loops == /\ st = "loops" /\ s.self # <<>> /\ s' = ExpandSelf(s) /\ UNCHANGED <<st, todo, g, was>>
Finish == /\ st = "loops" /\ s.self = <<>> /\ st' = "done" /\ UNCHANGED <<s, todo, g, was>>
Next == Write \/ Written \/ Canon \/ Canonized \/ Text \/ Rank \/ Sink \/ Sunk \/ Split \/ HasSplit
        \/ Cross \/ Crossed \/ Loops \/ Finish
Spec == Init /\ [][Next]_vars

(******************************* invariants *********************************)
Dag == Acyclic(s.bag)
(* Every edge written so far is there, unchanged or flipped as a whole. *)
NothingLost == st = "text" =>
   \A j \in 1..Len(was) :
      LET e == was[j]
          here == {q \in 1..Len(g.edges) : g.edges[q].look = e.look}
          aside == {q \in 1..Len(g.self) : g.self[q].look = e.look}
      IN IF e.path[1] = e.path[2] THEN here = {} /\ Cardinality(aside) = 1
         ELSE aside = {} /\ Cardinality(here) = 1 /\ \A q \in here : g.edges[q] \in {e, Flip(e)}
UnchangedIfAcyclic == st = "text" =>
   LET all == BagOfPaths([j \in 1..Len(was) |-> was[j].path])
       real == [e \in {x \in DOMAIN all : x[1] # x[2]} |-> all[e]]
   IN (\A e \in DOMAIN real : ~Reach(real, e[2], e[1])) =>
         g.edges = SelectSeq(was, LAMBDA e : e.path[1] # e.path[2])
(* Sinking: legal, never up, never longer, and one result for every order. *)
Longest == LET lp == LongestPath(s.bag, Len(s.nodes)) IN lp
SinkIsLegal == st = "sink" =>
   LET lvl == LevelsIn(s.rows, Len(s.nodes)) IN
   /\ LegalLevels(s.bag, lvl) /\ WellRanked(s.rows, Len(s.nodes))
   /\ \A a \in DOMAIN lvl : lvl[a] >= Longest[a]
   /\ Length(s.bag, lvl) <= Length(s.bag, Longest)
Confluent == (st = "split" /\ Len(s.nodes) = Len(g.nodes) + Cardinality({j \in 1..Len(g.edges) : g.edges[j].text # ""}))
             => LevelsIn(s.rows, Len(s.nodes)) = SinkAll(s.bag, Longest)
(* Splitting never disturbs what is ranked already. *)
SplitIsLegal == st = "split" => LegalLevels(s.bag, LevelsIn(s.rows, Len(s.nodes)))
Lowered == st = "done" => IsLowered(g, s)
=============================================================================
