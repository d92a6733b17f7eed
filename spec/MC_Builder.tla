------------------------------ MODULE MC_Builder ------------------------------
(* All short statement histories, driven through the machine together with a *)
(* second, declarative account of which defaults a statement sees.           *)
EXTENDS Builder
CONSTANTS MaxEvents, Names, Vals
VARIABLES b, hist
Attr == {<<>>} \cup {<<<<"k", v>>>> : v \in Vals}
E(e, n, a, c) == [e |-> e, n |-> n, p |-> <<>>, a |-> a, c |-> c]
Hop(n) == [n |-> n, p |-> <<>>, k |-> "->"]
Events == {E("open", "", <<>>, <<>>), E("close", "", <<>>, <<>>)}
     \cup {E("attr", t, a, <<>>) : t \in {"node", "edge"}, a \in Attr \ {<<>>}}
     \cup {E("node", n, a, <<>>) : n \in Names, a \in Attr}
     \cup {E("edge", n, a, <<Hop(m)>>) : n, m \in Names, a \in Attr}
Init == hist = <<E("open", "", <<>>, <<>>)>> /\ b = BuildStep(BuildInit, hist[1])
Next == /\ Len(hist) < MaxEvents /\ Len(b.ns) > 0
        /\ \E e \in Events : hist' = Append(hist, e) /\ b' = BuildStep(b, e)
Spec == Init /\ [][Next]_<<b, hist>>

(* Positions of the scopes that are open just before event j. *)
RECURSIVE OpenAt(_)
OpenAt(j) == IF j = 1 THEN <<>>
             ELSE LET o == OpenAt(j-1) IN
                  CASE hist[j-1].e = "open" -> Append(o, j-1)
                    [] hist[j-1].e = "close" -> SubSeq(o, 1, Len(o)-1)
                    [] OTHER -> o
(* The default that event j sees: the last one written before it in one of   *)
(* its open scopes, an inner scope before an outer one.                      *)
InScope(q, j, s) == OpenAt(q) # <<>> /\ OpenAt(q)[Len(OpenAt(q))] = s /\ q < j
DefaultFor(target, j) ==
   LET scopes == OpenAt(j)
       writes(s) == {q \in 1..Len(hist) : InScope(q, j, s) /\ hist[q].e = "attr" /\ hist[q].n = target}
       live == {d \in 1..Len(scopes) : writes(scopes[d]) # {}}
   IN IF live = {} THEN <<>>
      ELSE LET s == scopes[MaxN(live)] IN <<hist[MaxN(writes(s))].a[1][2]>>
Opt(a) == IF "k" \in DOMAIN a THEN <<a["k"]>> ELSE <<>>
EdgesAt == SelectSeq([j \in 1..Len(hist) |-> j], LAMBDA j : hist[j].e = "edge")
EdgeScoped == /\ Len(b.edges) = Len(EdgesAt)
   /\ \A q \in 1..Len(b.edges) :
      LET j == EdgesAt[q] IN
      Opt(b.edges[q].a) = IF hist[j].a # <<>> THEN <<hist[j].a[1][2]>> ELSE DefaultFor("edge", j)
Mentions(j, n) == \/ hist[j].e = "node" /\ hist[j].n = n
                  \/ hist[j].e = "edge" /\ (hist[j].n = n \/ hist[j].c[1].n = n)
NodeScoped == \A n \in Names :
   LET ms == {j \in 1..Len(hist) : Mentions(j, n)}
       first == CHOOSE j \in ms : \A k \in ms : j <= k
       own == {j \in ms : hist[j].e = "node" /\ hist[j].a # <<>>}
   IN /\ Known(b, n) <=> ms # {}
      /\ ms # {} => Opt(b.nodes[Index(b, n)].a) =
                      IF own # {} THEN <<hist[MaxN(own)].a[1][2]>> ELSE DefaultFor("node", first)
EachOnce == \A j, k \in 1..Len(b.nodes) : b.nodes[j].n = b.nodes[k].n => j = k
=============================================================================
