----------------------------- MODULE MC_Drawing -----------------------------
(* How a layout is drawn, call by call: the nodes in order, shape before      *)
(* text, then every visible edge once; with the debug flag, marks come in     *)
(* between.  The judgements of Layout accept every drawing made like this,    *)
(* and none in which one call is lost, doubled, altered or out of order.      *)
EXTENDS Layout
CONSTANTS MaxMarks, KindsN
VARIABLES g, debug, at, todo, calls, marks
vars == <<g, debug, at, todo, calls, marks>>
L0(j) == [lc |-> "#00000" \o ToString(j) \o "ff", lw |-> 1, fc |-> <<"#ffffffff">>, rd |-> 0, fs |-> 14]
Cell(t, d, s) == [t |-> t, d |-> d, s |-> s, p |-> <<>>]
NodeAt(j, kind, text) ==
   LET w == 40000
       h == 20000
       mx == <<50000, 250000, 150000>>[j + 1]      \* the last one is between the others
       my == 50000
   IN [kind |-> kind, text |-> text, w |-> w, h |-> h, x0 |-> mx - w \div 2, x1 |-> mx + w \div 2, y0 |-> my - h \div 2, y1 |-> my + h \div 2,
       X0 |-> mx - w, X1 |-> mx + w, Y0 |-> my - h, Y1 |-> my + h, cx |-> mx, cy |-> my, mx |-> mx, my |-> my, look |-> L0(j),
       prop |-> IF j = 0 THEN <<"p">> ELSE <<>>,
       cells |-> IF kind = "record" THEN <<Cell("row", 0, ""), Cell("text", 1, "l"), Cell("text", 1, "r")>> ELSE <<>>, ori |-> "TB"]
Edge(j, path, style, text) == [path |-> path, start |-> j = 1, end |-> TRUE, style |-> style, look |-> L0(5 + j), sp |-> <<>>, dp |-> <<>>,
                               prop |-> <<>>, text |-> text]
Frame(e, q) == [c |-> "rect", x |-> e.x0 + (IF q = 3 THEN e.w \div 2 ELSE 0), y |-> e.y0, w |-> IF q \in {2, 3} THEN e.w \div 2 ELSE e.w, h |-> e.h,
                look |-> IF q = 4 THEN NoFill(e.look) ELSE e.look, prop |-> <<>>, clip |-> <<>>]
TextCall(e, x, t) == [c |-> "text", x |-> x, y |-> e.my, text |-> t, look |-> e.look]
Oval(e, d, p) == [c |-> "circle", x |-> e.cx, y |-> e.cy, w |-> e.w - d, h |-> e.h - d, look |-> e.look, prop |-> p]
CallsFor(e) ==
   CASE e.kind = "box" -> <<[Frame(e, 1) EXCEPT !.prop = e.prop], TextCall(e, e.mx, e.text)>>
     [] e.kind = "circle" -> <<Oval(e, 0, e.prop), TextCall(e, e.mx, e.text)>>
     [] e.kind = "dcircle" -> <<Oval(e, 0, e.prop), Oval(e, 15000, <<>>), TextCall(e, e.mx, e.text)>>
     [] e.kind = "record" -> <<Frame(e, 1), Frame(e, 2), TextCall(e, e.x0 + e.w \div 4, "l"), Frame(e, 3), TextCall(e, e.x1 - e.w \div 4, "r"), Frame(e, 4)>>
     [] e.kind = "label" -> <<TextCall(e, e.mx, e.text)>>
     [] OTHER -> <<>>
ArrowFor(e) ==
   LET m == Len(e.path)
       p(j) == N(g, e.path[j])
       pt(j) == IF j = 1 THEN <<p(1).x1, p(1).cy, p(1).x1 + 30000, p(1).cy>>
                ELSE IF j = m THEN <<p(m).x0 - 30000, p(m).cy, p(m).x0, p(m).cy>> ELSE <<p(j).cx - 30000, p(j).cy, p(j).cx, p(j).cy>>
   IN [c |-> "arrow", look |-> e.look, prop |-> e.prop, dash |-> e.style = "dashed", hs |-> e.start, he |-> e.end,
       path |-> [j \in 1..m |-> pt(j)]]
MarkCalls == {[c |-> "circle", x |-> 0, y |-> 0, w |-> 6000, h |-> 6000, look |-> L0(9), prop |-> <<>>]}
Built == [nodes |-> SubSeq(g.nodes, 1, 2), edges |-> [j \in 1..Len(g.edges) |-> [g.edges[j] EXCEPT !.path = <<@[1], @[Len(@)]>>]]]
(* The calls of the plain drawing. *)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
PlainCalls == Cat([j \in 1..Len(g.nodes) |-> CallsFor(g.nodes[j])])
              \o Cat([j \in 1..Len(g.edges) |-> IF Visible(g.edges[j]) THEN <<ArrowFor(g.edges[j])>> ELSE <<>>])
Init == /\ debug \in BOOLEAN /\ at = "draw" /\ calls = <<>> /\ marks = 0
        /\ \E k0, k1 \in KindsN : \E s0, s1 \in {"normal", "dashed", "none"} : \E lab \in {"", "x"} :
             g = [ori |-> "LR", nodes |-> <<NodeAt(0, k0, "a"), NodeAt(1, k1, "b"), NodeAt(2, IF lab = "" THEN "conn" ELSE "label", lab)>>,
                  edges |-> <<Edge(0, <<0, 1>>, s0, ""), Edge(1, <<0, 2, 1>>, s1, lab)>>, rows |-> <<<<0>>, <<2>>, <<1>>>>, calls |-> <<>>]
        /\ todo = PlainCalls
Draw == /\ at = "draw" /\ todo # <<>> /\ calls' = Append(calls, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<g, debug, at, marks>>
Mark == /\ at = "draw" /\ debug /\ marks < MaxMarks /\ marks' = marks + 1
        /\ \E k \in MarkCalls : calls' = Append(calls, k)
        /\ UNCHANGED <<g, debug, at, todo>>
Finish == at = "draw" /\ todo = <<>> /\ at' = "done" /\ UNCHANGED <<g, debug, todo, calls, marks>>
IsPlain(k) == k \notin MarkCalls
DropAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Fault == /\ at = "done"
         /\ \/ \E j \in 1..Len(calls) : IsPlain(calls[j]) /\ calls' = DropAt(calls, j)
            \/ \E j \in 1..Len(calls) : IsPlain(calls[j]) /\ calls[j].c \in {"text", "arrow"} /\ calls' = SubSeq(calls, 1, j) \o SubSeq(calls, j, Len(calls))
            \/ \E j \in 1..Len(calls) : IsPlain(calls[j]) /\ calls' = [calls EXCEPT ![j].look.lw = 7]
            \/ \E j \in 1..Len(calls) : IsPlain(calls[j]) /\ calls[j].c = "circle" /\ calls' = [calls EXCEPT ![j].h = @ - 1000]
            \/ \E j \in 1..(Len(calls) - 1) : /\ IsPlain(calls[j]) /\ IsPlain(calls[j + 1])
                                              /\ calls[j].c \in {"rect", "circle"} /\ calls[j + 1].c = "text"
                                              /\ calls' = [calls EXCEPT ![j] = calls[j + 1], ![j + 1] = calls[j]]
                                              /\ calls' # calls
            \/ \E j \in 1..Len(calls) : calls[j].c = "arrow" /\ calls' = [calls EXCEPT ![j].path = Append(@, @[1])]
            \/ \E j \in 1..Len(calls) : calls[j].c = "arrow" /\ calls' = [calls EXCEPT ![j].hs = ~@]
            (* a curve that leaves, arrives or passes the wrong way *)
            \/ \E j \in 1..Len(calls) : calls[j].c = "arrow" /\ calls' = [calls EXCEPT ![j].path[1][3] = @ - 60000]
            \/ \E j \in 1..Len(calls) : calls[j].c = "arrow" /\ \E q \in 2..Len(calls[j].path) : calls' = [calls EXCEPT ![j].path[q][1] = @ + 60000]
         /\ at' = "faulty" /\ UNCHANGED <<g, debug, todo, marks>>
Stop == at = "faulty" /\ UNCHANGED vars
Next == Draw \/ Mark \/ Finish \/ Fault \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Judged == LET d == [g EXCEPT !.calls = calls] IN ShapesDrawn(Built, d) /\ EdgesDrawn(Built, d)
Accepts == at = "done" => IF debug THEN OnlyMarks(PlainCalls, calls) ELSE Judged
Rejects == at = "faulty" => ~(IF debug THEN OnlyMarks(PlainCalls, calls) ELSE Judged)
(* An edge is never drawn before it, or more often than, it is written. *)
Once == \A j \in 1..2 : at # "faulty" => Cardinality({q \in 1..Len(calls) : calls[q].c = "arrow" /\ calls[q].look = g.edges[j].look})
                            <= IF Visible(g.edges[j]) THEN 1 ELSE 0
=============================================================================
