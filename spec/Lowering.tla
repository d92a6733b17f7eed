------------------------------ MODULE Lowering ------------------------------
(***************************************************************************)
(* Canonicalization and lowering of a graph (layout/src/topo/layout.rs,    *)
(* optimizer.rs).  A graph under lowering is                               *)
(*   nodes  elements [kind, text, look, ...]; handle h is nodes[h+1]       *)
(*   edges  [start, end, style, text, look, sp, dp, prop, path]            *)
(*   self   the self edges that are set aside (path <<node>>)              *)
(*   bag    the edges of the ranked graph                                  *)
(*   rows   the levels                                                     *)
(***************************************************************************)
EXTENDS Ranks

SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A j \in 1..Len(p) : Cardinality({k \in 1..Len(p) : p[k] = p[j]})
                                       = Cardinality({k \in 1..Len(q) : q[k] = p[j]})

(*************************** breaking the cycles ***************************)
Flip(e) == [e EXCEPT !.start = e.end, !.end = e.start, !.sp = e.dp, !.dp = e.sp,
                     !.path = <<e.path[2], e.path[1]>>]
CanonInit == [edges |-> <<>>, self |-> <<>>, bag |-> E0]
(* An edge that closes a cycle with the edges before it is flipped.         *)
CanonStep(s, e) ==
   IF e.path[1] = e.path[2] THEN [s EXCEPT !.self = Append(@, [e EXCEPT !.path = <<e.path[1]>>])]
   ELSE LET d == IF Reach(s.bag, e.path[2], e.path[1]) THEN Flip(e) ELSE e
        IN [s EXCEPT !.edges = Append(@, d), !.bag = AddE(@, d.path)]
Canonical(edges) == FoldLeft(CanonStep, CanonInit, edges)

(******************************* the labels *********************************)
NewConnector(text, look) == [kind |-> IF text = "" THEN "conn" ELSE "label", text |-> text, look |-> look]
(* The j-th edge is led through a connector that carries its label. *)
SplitText(s, j) ==
   LET e == s.edges[j]
       c == Len(s.nodes)
   IN [s EXCEPT !.nodes = Append(@, NewConnector(e.text, e.look)),
                !.edges[j] = [e EXCEPT !.path = <<e.path[1], c, e.path[2]>>, !.text = ""],
                !.bag = AddE(AddE(DelE(@, e.path), <<e.path[1], c>>), <<c, e.path[2]>>)]

(******************************* the ranks **********************************)
MaySink(bag, a) == OutDeg(bag, a) >= InDeg(bag, a) /\ OutDeg(bag, a) > 0
LowestNext(bag, lvl, a) == CHOOSE x \in {lvl[b] : b \in Succ(bag, a)} :
                              \A b \in Succ(bag, a) : x <= lvl[b]
CanSink(bag, lvl, a) == MaySink(bag, a) /\ LowestNext(bag, lvl, a) > lvl[a] + 1
SinkLevel(bag, lvl, a) == LowestNext(bag, lvl, a) - 1
Length(bag, lvl) == FoldSet(LAMBDA e, acc : acc + bag[e] * (lvl[e[2]] - lvl[e[1]]), 0, DOMAIN bag)
LegalLevels(bag, lvl) == \A e \in DOMAIN bag : e[1] = e[2] \/ lvl[e[1]] < lvl[e[2]]
(* Sinking ends in one and the same ranking, whatever the order. *)
RECURSIVE SinkAll(_, _)
SinkAll(bag, lvl) ==
   LET S == {a \in DOMAIN lvl : CanSink(bag, lvl, a)}
   IN IF S = {} THEN lvl
      ELSE LET a == CHOOSE x \in S : TRUE
           IN SinkAll(bag, [lvl EXCEPT ![a] = SinkLevel(bag, lvl, a)])
LevelsIn(rows, k) == [a \in NodesOf(k) |-> LevelOf(rows, a)]

(******************************* the chains *********************************)
Links(path) == {<<path[j], path[j+1]>> : j \in 1..(Len(path) - 1)}
BagOfPaths(paths) ==
   FoldLeft(LAMBDA acc, p : FoldLeft(LAMBDA b, j : AddE(b, <<p[j], p[j+1]>>), acc,
                                     [j \in 1..(Len(p) - 1) |-> j]), E0, paths)
(* Insert a connector into link q of edge j, one level below its start. *)
SplitLink(s, j, q) ==
   LET e == s.edges[j]
       c == Len(s.nodes)
       a == e.path[q]
       b == e.path[q+1]
   IN [s EXCEPT !.nodes = Append(@, NewConnector("", "none")),
                !.edges[j].path = SubSeq(@, 1, q) \o <<c>> \o SubSeq(@, q+1, Len(@)),
                !.bag = AddE(AddE(DelE(@, <<a, b>>), <<a, c>>), <<c, b>>),
                !.rows = [@ EXCEPT ![LevelOf(@, a) + 2] = Append(@, c)]]
IsLong(rows, path, q) == LevelOf(rows, path[q+1]) > LevelOf(rows, path[q]) + 1

(****************************** the crossings *******************************)
Joined(bag, a, b) == <<a, b>> \in DOMAIN bag \/ <<b, a>> \in DOMAIN bag
(* Parallel edges count once. *)
CrossIn(bag, r1, r2) ==
   LET nb == [x \in Elems(r1) |-> {q \in 1..Len(r2) : Joined(bag, x, r2[q])}]
   IN FoldLeft(LAMBDA acc, p :
        acc + FoldLeft(LAMBDA ac2, p2 :
                 ac2 + Cardinality({<<x, y>> \in nb[r1[p]] \X nb[r1[p2]] : x > y}),
              0, [k \in 1..(Len(r1) - p) |-> p + k]),
        0, [k \in 1..Len(r1) |-> k])
Crossings(bag, rows) == FoldLeft(LAMBDA acc, L : acc + CrossIn(bag, rows[L], rows[L+1]), 0,
                                 [L \in 1..(Len(rows) - 1) |-> L])
(* Some exchange of two neighbours would remove crossings. *)
Exchanged(rows, L, p) == [rows EXCEPT ![L] = [@ EXCEPT ![p] = rows[L][p+1], ![p+1] = rows[L][p]]]
Around(bag, rows, L) == (IF L > 1 THEN CrossIn(bag, rows[L-1], rows[L]) ELSE 0)
                      + (IF L < Len(rows) THEN CrossIn(bag, rows[L], rows[L+1]) ELSE 0)
Improvable(bag, rows) == \E L \in 1..Len(rows) : \E p \in 1..(Len(rows[L]) - 1) :
                            Around(bag, Exchanged(rows, L, p), L) < Around(bag, rows, L)
SameRows(r1, r2) == /\ Len(r1) = Len(r2)
                    /\ \A L \in 1..Len(r1) : Len(r1[L]) = Len(r2[L]) /\ Elems(r1[L]) = Elems(r2[L])

(*************************** the self edges *********************************)
(* A self edge passes through a connector beside its node. *)
ExpandSelf(s) ==
   LET e == s.self[1]
       v == e.path[1]
       c == Len(s.nodes)
       L == LevelOf(s.rows, v) + 1
   IN [s EXCEPT !.nodes = Append(@, NewConnector(e.text, e.look)),
                !.edges = Append(@, [e EXCEPT !.path = <<v, c, v>>, !.text = ""]),
                !.rows[L] = InsertBefore(@, c, v),
                !.self = Tail(@)]

(****************** what lowering promises, as one relation *****************)
Middle(path) == SubSeq(path, 2, Len(path) - 1)
Position(r, a) == CHOOSE j \in 1..Len(r) : r[j] = a
IsFresh(s, k, a) == a >= k /\ s.nodes[a + 1].kind \in {"conn", "label"}
CarriesLabel(s, e, mid) ==
   LET L == {q \in 1..Len(mid) : s.nodes[mid[q] + 1].kind = "label"}
   IN IF e.text = "" THEN L = {}
      ELSE /\ Cardinality(L) = 1
           /\ \A q \in L : /\ s.nodes[mid[q] + 1].text = e.text
                           /\ s.nodes[mid[q] + 1].look = e.look
SameArrow(e, d) == [e EXCEPT !.path = <<>>, !.text = ""] = [d EXCEPT !.path = <<>>, !.text = ""]
ChainOf(s, lvl, k, e, d) ==
   /\ SameArrow(e, d) /\ d.text = ""
   /\ d.path[1] = e.path[1] /\ d.path[Len(d.path)] = e.path[2]
   /\ \A q \in 2..(Len(d.path) - 1) : IsFresh(s, k, d.path[q])
   /\ \A q \in 1..(Len(d.path) - 1) : lvl[d.path[q+1]] = lvl[d.path[q]] + 1
   /\ CarriesLabel(s, e, Middle(d.path))
LoopOf(s, lvl, k, e, d, loops) ==
   LET v == e.path[1]
       c == d.path[2]
       r == s.rows[lvl[v] + 1]
       x == Position(r, v)
       y == Position(r, c)
   IN /\ SameArrow(e, d) /\ d.text = "" /\ Len(d.path) = 3 /\ d.path[1] = v /\ d.path[3] = v
      /\ IsFresh(s, k, c) /\ lvl[c] = lvl[v]
      /\ \A q \in ((IF x < y THEN x ELSE y) + 1)..((IF x < y THEN y ELSE x) - 1) : r[q] \in loops[v]
      /\ CarriesLabel(s, e, <<c>>)
(* g is the canonical graph, s the lowered one. *)
IsLowered(g, s) ==
   LET k == Len(g.nodes)
       m == Len(g.edges)
       lvl == LevelsIn(s.rows, Len(s.nodes))
       mids == [j \in 1..Len(s.edges) |-> Middle(s.edges[j].path)]
       loops == [v \in NodesOf(k) |-> {s.edges[j].path[2] : j \in {q \in (m+1)..Len(s.edges) :
                                                              s.edges[q].path[1] = v}}]
   IN /\ Len(s.nodes) >= k /\ SubSeq(s.nodes, 1, k) = g.nodes
      /\ s.self = <<>> /\ Len(s.edges) = m + Len(g.self)
      /\ WellRanked(s.rows, Len(s.nodes))
      /\ \A j \in 1..m : ChainOf(s, lvl, k, g.edges[j], s.edges[j])
      /\ \A j \in 1..Len(g.self) : LoopOf(s, lvl, k, g.self[j], s.edges[m + j], loops)
      /\ LET all == FlattenSeq(mids) IN
           /\ Len(all) = Len(s.nodes) - k
           /\ Elems(all) = k..(Len(s.nodes) - 1)
      /\ s.bag = BagOfPaths([j \in 1..m |-> s.edges[j].path])
=============================================================================
