------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* A finished layout and its drawing (layout/src/topo/placer, std_shapes). *)
(* Coordinates are thousandths of a pixel.  A node has                     *)
(*   kind, text, cells, look, prop, w, h                                    *)
(*   x0 y0 x1 y1   its box          X0 Y0 X1 Y1   its box with the halo     *)
(*   cx cy         the center that edges aim at     mx my   the middle      *)
(* A layout is [ori, nodes, edges (with path), rows, calls].               *)
(***************************************************************************)
EXTENDS Lowering, TextLines
Tol == 3                 \* rounding of coordinates
Wild == 2147483647       \* not finite, or out of range
Near(a, b) == a - b <= Tol /\ b - a <= Tol
AtMost(a, b) == a <= b + Tol
N(g, a) == g.nodes[a + 1]
IsConn(e) == e.kind \in {"conn", "label"}
Handles(g) == NodesOf(Len(g.nodes))
Proper(g) == {a \in Handles(g) : ~IsConn(N(g, a))}

(* Along the rows and across them, whatever the orientation. *)
Lo(g, e) == IF g.ori = "TB" THEN e.x0 ELSE e.y0
Hi(g, e) == IF g.ori = "TB" THEN e.x1 ELSE e.y1
LoH(g, e) == IF g.ori = "TB" THEN e.X0 ELSE e.Y0
HiH(g, e) == IF g.ori = "TB" THEN e.X1 ELSE e.Y1
Top(g, e) == IF g.ori = "TB" THEN e.Y0 ELSE e.X0
Bottom(g, e) == IF g.ori = "TB" THEN e.Y1 ELSE e.X1

(******************************* placement **********************************)
Coords(e) == {e.x0, e.y0, e.x1, e.y1, e.X0, e.Y0, e.X1, e.Y1, e.cx, e.cy, e.mx, e.my, e.w, e.h}
InPlane(g) == \A a \in Handles(g) : /\ \A v \in Coords(N(g, a)) : v # Wild
                                    /\ \A v \in {N(g, a).X0, N(g, a).Y0, N(g, a).x0, N(g, a).y0} : AtMost(0, v)
OneBox(e) == /\ e.x1 - e.x0 >= e.w - Tol /\ e.x1 - e.x0 <= e.w + Tol
             /\ e.y1 - e.y0 >= e.h - Tol /\ e.y1 - e.y0 <= e.h + Tol
Disjoint(e, d) == AtMost(e.x1, d.x0) \/ AtMost(d.x1, e.x0) \/ AtMost(e.y1, d.y0) \/ AtMost(d.y1, e.y0)
NoOverlap(g) == \A a, b \in Proper(g) : a < b => Disjoint(N(g, a), N(g, b))
(* The nodes and connectors of a row are side by side, in the row's order. *)
RowsInOrder(g) == \A L \in 1..Len(g.rows) : \A p \in 1..(Len(g.rows[L]) - 1) :
                     AtMost(Hi(g, N(g, g.rows[L][p])), Lo(g, N(g, g.rows[L][p+1])))
RowBottom(g, r) == {Bottom(g, N(g, a)) : a \in Elems(r) \cap Proper(g)}
RowTop(g, r) == {Top(g, N(g, a)) : a \in Elems(r) \cap Proper(g)}
RowsStacked(g) == \A L, M \in 1..Len(g.rows) : L < M =>
                     \A b \in RowBottom(g, g.rows[L]) : \A t \in RowTop(g, g.rows[M]) : AtMost(b, t)
SizesKept(b, g) == /\ Len(g.nodes) >= Len(b.nodes)
                   /\ \A a \in NodesOf(Len(b.nodes)) :
                        N(g, a).w = N(b, a).w /\ N(g, a).h = N(b, a).h /\ OneBox(N(g, a))
Placed(b, g) == InPlane(g) /\ NoOverlap(g) /\ RowsInOrder(g) /\ RowsStacked(g) /\ SizesKept(b, g)
                /\ WellRanked(g.rows, Len(g.nodes))

(***************************** the direction ********************************)
(* Node b is in a later row than node a. *)
After(g, a, b) == AtMost(Bottom(g, N(g, a)), Top(g, N(g, b)))
                  /\ (IF g.ori = "TB" THEN N(g, a).cy < N(g, b).cy ELSE N(g, a).cx < N(g, b).cx)
(* An edge that closes a cycle with the edges before it runs backwards. *)
RECURSIVE Runs(_, _, _)
Runs(g, bag, es) ==
   IF es = <<>> THEN TRUE
   ELSE LET f == Head(es).path[1]
            t == Head(es).path[2]
            back == Reach(bag, t, f)
        IN IF f = t THEN Runs(g, bag, Tail(es))
           ELSE /\ IF back THEN After(g, t, f) ELSE After(g, f, t)
                /\ Runs(g, AddE(bag, IF back THEN <<t, f>> ELSE <<f, t>>), Tail(es))
Directed(b, g) == g.ori = b.ori /\ Runs(g, E0, b.edges)
Transposed(e, d) == /\ Near(e.x0, d.y0) /\ Near(e.y0, d.x0) /\ Near(e.x1, d.y1) /\ Near(e.y1, d.x1)
                    /\ Near(e.cx, d.cy) /\ Near(e.cy, d.cx)
Mirrored(g, m) == /\ g.ori # m.ori /\ Len(g.nodes) = Len(m.nodes) /\ g.rows = m.rows
                  /\ \A a \in Handles(g) : Transposed(N(g, a), N(m, a))

(******************************* the edges **********************************)
CallsOf(g, kinds) == SelectSeq(g.calls, LAMBDA k : k.c \in kinds)
OnRect(x, y, x0, y0, x1, y1) ==
   \/ /\ Near(x, x0) \/ Near(x, x1)
      /\ AtMost(y0, y) /\ AtMost(y, y1)
   \/ /\ Near(y, y0) \/ Near(y, y1)
      /\ AtMost(x0, x) /\ AtMost(x, x1)
(* On the ellipse with the half axes a and b around the origin: the squares  *)
(* of the coordinates in thousandths of the axes add up to one million.      *)
Scaled(d, a) == IF a > 2000000 THEN ((d \div 1000) * 1000) \div (a \div 1000) ELSE (d * 1000) \div a
Abs(x) == IF x < 0 THEN -x ELSE x
Within(a, lo, hi) == a >= lo /\ a <= hi
OnEllipse(dx, dy, a, b) ==
   /\ Abs(dx) <= a + Tol /\ Abs(dy) <= b + Tol /\ a > 0 /\ b > 0
   /\ LET u == Scaled(Abs(dx), a)
          v == Scaled(Abs(dy), b)
          slack == 8000 + 12000000 \div (IF a < b THEN a ELSE b)
      IN Within(u * u + v * v, 1000000 - slack, 1000000 + slack)
RectsIn(g, e) == {k \in Elems(g.calls) : /\ k.c = "rect" /\ AtMost(e.x0, k.x) /\ AtMost(e.y0, k.y)
                                          /\ AtMost(k.x + k.w, e.x1) /\ AtMost(k.y + k.h, e.y1)}
(* A port of a record may lie inside of it, on the border of a cell. *)
OnBorder(g, e, x, y, port) ==
   CASE e.kind = "box" -> OnRect(x, y, e.x0, e.y0, e.x1, e.y1)
     [] e.kind \in {"circle", "dcircle"} -> OnEllipse(x - e.cx, y - e.cy, e.w \div 2, e.h \div 2)
     [] e.kind = "record" -> \/ OnRect(x, y, e.x0, e.y0, e.x1, e.y1)
                             \/ port # <<>> /\ \E k \in RectsIn(g, e) : OnRect(x, y, k.x, k.y, k.x + k.w, k.y + k.h)
     [] OTHER -> TRUE      \* a shape that is not drawn has no border
(* Point j of the curve: where the edge leaves, passes or arrives. *)
PointX(k, j) == IF j = 1 THEN k.path[1][1] ELSE k.path[j][3]
PointY(k, j) == IF j = 1 THEN k.path[1][2] ELSE k.path[j][4]
(* Directions, in hundredths.                                               *)
Larger(a, b) == IF a > b THEN a ELSE b
Unit(dx, dy) == LET m == Larger(Abs(dx), Abs(dy))
                    s == IF m > 2000000 THEN 1000 ELSE 1
                IN <<((dx \div s) * 100) \div (m \div s), ((dy \div s) * 100) \div (m \div s)>>
Far(dx, dy) == Abs(dx) > 2000 \/ Abs(dy) > 2000
SameWay(dx, dy, ex, ey) ==
   Far(dx, dy) /\ Far(ex, ey) =>
      LET u == Unit(dx, dy)
          v == Unit(ex, ey)
      IN Abs(u[1] - v[1]) <= 3 /\ Abs(u[2] - v[2]) <= 3
(* h points between the directions u and v; nothing is said if these are     *)
(* nearly opposite.                                                          *)
Turn(u, v) == u[1] * v[2] - u[2] * v[1]
Between(u, h, v) ==
   LET x == Turn(u, v)
       s == IF x > 0 THEN 1 ELSE -1
   IN IF Abs(x) < 2000 THEN u[1] * v[1] + u[2] * v[2] < 0 \/ u[1] * h[1] + u[2] * h[2] > 0
      ELSE s * Turn(u, h) >= -600 /\ s * Turn(h, v) >= -600
(* The control point of point j. A curve leaves towards the next shape on its *)
(* way, arrives from the point before, and does not turn back where it passes *)
(* a connector.                                                              *)
HandleX(k, j) == (IF j = 1 THEN k.path[1][3] ELSE k.path[j][1]) - PointX(k, j)
HandleY(k, j) == (IF j = 1 THEN k.path[1][4] ELSE k.path[j][2]) - PointY(k, j)
Steers(g, e, k) ==
   LET m == Len(e.path)
       next == N(g, e.path[2])
   IN /\ SameWay(HandleX(k, 1), HandleY(k, 1), next.cx - PointX(k, 1), next.cy - PointY(k, 1))
      /\ SameWay(HandleX(k, m), HandleY(k, m), PointX(k, m-1) - PointX(k, m), PointY(k, m-1) - PointY(k, m))
      /\ \A j \in 2..(m - 1) :
           LET ax == PointX(k, j - 1) - PointX(k, j)
               ay == PointY(k, j - 1) - PointY(k, j)
               bx == PointX(k, j) - N(g, e.path[j + 1]).cx
               by == PointY(k, j) - N(g, e.path[j + 1]).cy
           IN Far(ax, ay) /\ Far(bx, by) /\ Far(HandleX(k, j), HandleY(k, j)) =>
                LET u == Unit(ax, ay)
                    v == Unit(bx, by)
                    h == Unit(HandleX(k, j), HandleY(k, j))
                IN Between(u, h, v)
Route(g, e, k) ==
   LET m == Len(e.path)
   IN /\ Len(k.path) = m
      /\ \A j \in 1..m : \A v \in Elems(k.path[j]) : v # Wild
      /\ Steers(g, e, k)
      /\ OnBorder(g, N(g, e.path[1]), PointX(k, 1), PointY(k, 1), e.sp)
      /\ OnBorder(g, N(g, e.path[m]), PointX(k, m), PointY(k, m), e.dp)
      /\ \A j \in 2..(m - 1) : /\ Near(PointX(k, j), N(g, e.path[j]).cx)
                               /\ Near(PointY(k, j), N(g, e.path[j]).cy)
Visible(e) == e.style # "none"
Drawn(g, e, k) == /\ k.c = "arrow" /\ k.look = e.look /\ k.prop = e.prop
                  /\ k.dash = (e.style \in {"dashed", "dotted"}) /\ k.hs = e.start /\ k.he = e.end
                  /\ Route(g, e, k)
(* The edges of the layout are the written ones, flipped or not. *)
Plain(e) == [start |-> e.start, end |-> e.end, style |-> e.style, look |-> e.look, sp |-> e.sp, dp |-> e.dp,
             prop |-> e.prop, f |-> e.path[1], t |-> e.path[Len(e.path)]]
Turned(p) == [p EXCEPT !.start = p.end, !.end = p.start, !.sp = p.dp, !.dp = p.sp, !.f = p.t, !.t = p.f]
Norm(e) == LET p == Plain(e) IN IF p.f <= p.t THEN {p, Turned(p)} ELSE {Turned(p), p}
EdgesDrawn(b, g) ==
   LET arrows == CallsOf(g, {"arrow"})
       seen == SelectSeq(g.edges, Visible)
   IN /\ SameBag([j \in 1..Len(b.edges) |-> Norm(b.edges[j])], [j \in 1..Len(g.edges) |-> Norm(g.edges[j])])
      /\ Len(arrows) = Len(seen)
      /\ CallsOf(g, {"line"}) = <<>>      \* (lines are marks, of debug mode)
      /\ \A j \in 1..Len(seen) : \E q \in 1..Len(arrows) : Drawn(g, seen[j], arrows[q])
      /\ \A q \in 1..Len(arrows) : \E j \in 1..Len(seen) : Drawn(g, seen[j], arrows[q])

(******************************* the shapes *********************************)
Round(l) == [l EXCEPT !.rd = 0]
NoFill(l) == [l EXCEPT !.fc = <<>>]
IsRect(e, k) == k.c = "rect" /\ Near(k.x, e.x0) /\ Near(k.y, e.y0) /\ k.w = e.w /\ k.h = e.h
IsOval(e, k) == k.c = "circle" /\ Near(k.x, e.cx) /\ Near(k.y, e.cy)
TextAt(k, x, y, t, l) == k.c = "text" /\ Near(k.x, x) /\ Near(k.y, y) /\ k.text = t /\ k.look = l
Inside(e, k) == /\ AtMost(e.x0, k.x) /\ AtMost(e.y0, k.y) /\ AtMost(k.x + k.w, e.x1) /\ AtMost(k.y + k.h, e.y1)
TextAtCell(cells) == SelectSeq([q \in 1..Len(cells) |-> q], LAMBDA q : cells[q].t = "text")
CellTexts(e) == SelectSeq(e.cells, LAMBDA c : c.t = "text")
(* Every node is a block of calls, one block after the other in some order; *)
(* what a block must hold, given the calls ks of the node.                   *)
RingGap == 15000         \* between the diameters of a double circle
BlockOf(e, ks) ==
   CASE e.kind \in {"none", "conn"} -> ks = <<>>
     [] e.kind = "box" ->
          /\ Len(ks) = 2 /\ IsRect(e, ks[1]) /\ ks[1].look = e.look /\ ks[1].prop = e.prop /\ ks[1].clip = <<>>
          /\ TextAt(ks[2], e.cx, e.cy, e.text, e.look)
     [] e.kind = "circle" ->
          /\ Len(ks) = 2 /\ IsOval(e, ks[1]) /\ ks[1].w = e.w /\ ks[1].h = e.h
          /\ ks[1].look = e.look /\ ks[1].prop = e.prop
          /\ TextAt(ks[2], e.cx, e.cy, e.text, e.look)
     [] e.kind = "dcircle" ->
          /\ Len(ks) = 3 /\ IsOval(e, ks[1]) /\ ks[1].w = e.w /\ ks[1].h = e.h
          /\ ks[1].look = e.look /\ ks[1].prop = e.prop
          /\ IsOval(e, ks[2]) /\ ks[2].w = e.w - RingGap /\ ks[2].h = e.h - RingGap /\ ks[2].look = e.look /\ ks[2].prop = <<>>
          /\ TextAt(ks[3], e.cx, e.cy, e.text, e.look)
     [] e.kind = "label" -> Len(ks) = 1 /\ TextAt(ks[1], e.mx, e.my, e.text, e.look)
     [] e.kind = "record" ->
          LET texts == SelectSeq(ks, LAMBDA k : k.c = "text")
              rects == SelectSeq(ks, LAMBDA k : k.c = "rect")
              clips == SelectSeq(ks, LAMBDA k : k.c = "clip")
          IN /\ Len(texts) + Len(rects) + Len(clips) = Len(ks)
             /\ [j \in 1..Len(texts) |-> texts[j].text] = [j \in 1..Len(CellTexts(e)) |-> CellTexts(e)[j].s]
             /\ \A j \in 1..Len(texts) : Round(texts[j].look) = Round(e.look)
             (* one frame per cell and row, and the outline; a text comes after *)
             (* the frame of its cell, which would hide it *)
             /\ LET tc == TextAtCell(e.cells)
                    pos == SelectSeq([j \in 1..Len(ks) |-> j], LAMBDA j : ks[j].c = "text")
                IN \A q \in 1..Len(pos) :
                     Len(SelectSeq(SubSeq(ks, 1, pos[q]), LAMBDA k : k.c = "rect")) >= tc[q]
             /\ Len(rects) = Len(e.cells) + 1
             /\ \A j \in 1..Len(rects) : Inside(e, rects[j]) /\ NoFill(Round(rects[j].look)) = NoFill(Round(e.look))
             /\ IsRect(e, rects[1]) /\ rects[1].look.fc = e.look.fc
             /\ \E j \in 1..Len(rects) : IsRect(e, rects[j]) /\ rects[j].look = NoFill(e.look)
             /\ Len(clips) = IF e.look.rd > 0 THEN 1 ELSE 0
             /\ \A j \in 1..Len(clips) : clips[j].rd > 0 /\ Near(clips[j].x, e.x0) /\ Near(clips[j].y, e.y0)
                                          /\ clips[j].w = e.w /\ clips[j].h = e.h
             (* the cells of a rounded record are cut at its corners *)
             /\ \A j \in 1..Len(rects) :
                  \/ rects[j].clip = <<>> /\ (clips = <<>> \/ rects[j].look.rd > 0)
                  \/ clips # <<>> /\ rects[j].clip = clips[1].clip
     [] OTHER -> FALSE
(* How many calls a node makes. *)
BlockLen(e) == CASE e.kind \in {"none", "conn"} -> 0
                 [] e.kind = "label" -> 1
                 [] e.kind \in {"box", "circle"} -> 2
                 [] e.kind = "dcircle" -> 3
                 [] OTHER -> Len(e.cells) + 1 + Len(CellTexts(e)) + (IF e.look.rd > 0 THEN 1 ELSE 0)
RECURSIVE Blocks(_, _, _)
Blocks(g, a, ks) ==
   IF a = Len(g.nodes) THEN ks = <<>>
   ELSE LET m == BlockLen(N(g, a))
        IN /\ Len(ks) >= m /\ BlockOf(N(g, a), SubSeq(ks, 1, m))
           /\ Blocks(g, a + 1, SubSeq(ks, m + 1, Len(ks)))
Same(e, d) == /\ e.kind = d.kind /\ e.text = d.text /\ e.cells = d.cells /\ e.look = d.look /\ e.prop = d.prop
              /\ e.w = d.w /\ e.h = d.h
LabelsOf(g) == SelectSeq(g.nodes, LAMBDA e : e.kind = "label")
ShapesDrawn(b, g) ==
   /\ \A a \in NodesOf(Len(b.nodes)) : Same(N(b, a), N(g, a))
   /\ LET want == SelectSeq(b.edges, LAMBDA e : e.text # "")
      IN SameBag([j \in 1..Len(want) |-> <<want[j].text, want[j].look.fs>>],
                 [j \in 1..Len(LabelsOf(g)) |-> <<LabelsOf(g)[j].text, LabelsOf(g)[j].look.fs>>])
   /\ Blocks(g, 0, CallsOf(g, {"rect", "circle", "text", "clip", "line"}))

(******************************* the viewport *******************************)
(* How far a call reaches to the right and down. *)
MaxN2(a, b) == IF a > b THEN a ELSE b
MaxAt(path, q, r) == FoldLeft(LAMBDA acc, p : MaxN2(acc, MaxN2(p[q], p[r])), 0, path)
ReachX(k) == CASE k.c \in {"rect"} -> k.x + k.w
               [] k.c = "circle" -> k.x + k.w \div 2
               [] k.c = "text" -> k.x + TextW(k.text, k.look.fs) \div 2
               [] k.c = "arrow" -> MaxAt(k.path, 1, 3)
               [] OTHER -> 0
ReachY(k) == CASE k.c \in {"rect"} -> k.y + k.h
               [] k.c = "circle" -> k.y + k.h \div 2
               [] k.c = "text" -> k.y + TextH(k.text, k.look.fs) \div 2
               [] k.c = "arrow" -> MaxAt(k.path, 2, 4)
               [] OTHER -> 0
Covers(w, h, calls) == \A j \in 1..Len(calls) : AtMost(ReachX(calls[j]), w) /\ AtMost(ReachY(calls[j]), h)
(* Nothing left of or above the origin but control points and text. *)
FromOrigin(k) ==
   CASE k.c \in {"rect", "text"} -> AtMost(0, k.x) /\ AtMost(0, k.y)
     [] k.c = "circle" -> AtMost(0, k.x - k.w \div 2) /\ AtMost(0, k.y - k.h \div 2)
     [] k.c = "arrow" -> \A j \in 1..Len(k.path) : AtMost(0, PointX(k, j)) /\ AtMost(0, PointY(k, j))
     [] OTHER -> TRUE
AllFromOrigin(calls) == \A j \in 1..Len(calls) : FromOrigin(calls[j])

(******************************* the records ********************************)
(* The frames of a record come outside in, cell by cell: frame j belongs to  *)
(* cell j of the record, the last one is the outline.                        *)
Kids(cells, j) == SelectSeq([q \in 1..(Len(cells) - j) |-> j + q],
                    LAMBDA q : /\ cells[q].d = cells[j].d + 1
                               /\ \A r \in (j+1)..q : cells[r].d > cells[j].d)
FlipDir(d) == IF d = "TB" THEN "LR" ELSE "TB"
DirAt(ori, depth) == IF depth % 2 = 0 THEN ori ELSE FlipDir(ori)
TilesRow(box, kids, dir) ==
   LET m == Len(kids)
       slack == Tol + m
       CloseTo(a, b) == a - b <= slack /\ b - a <= slack
   IN IF dir = "LR"
      THEN /\ \A q \in 1..m : CloseTo(kids[q].y, box.y) /\ CloseTo(kids[q].h, box.h) /\ kids[q].w > 0
           /\ CloseTo(kids[1].x, box.x) /\ CloseTo(kids[m].x + kids[m].w, box.x + box.w)
           /\ \A q \in 1..(m-1) : CloseTo(kids[q].x + kids[q].w, kids[q+1].x)
      ELSE /\ \A q \in 1..m : CloseTo(kids[q].x, box.x) /\ CloseTo(kids[q].w, box.w) /\ kids[q].h > 0
           /\ CloseTo(kids[1].y, box.y) /\ CloseTo(kids[m].y + kids[m].h, box.y + box.h)
           /\ \A q \in 1..(m-1) : CloseTo(kids[q].y + kids[q].h, kids[q+1].y)
Frames(ks) == SelectSeq(ks, LAMBDA k : k.c = "rect")
TextsOf(ks) == SelectSeq(ks, LAMBDA k : k.c = "text")
TextCells(cells) == SelectSeq([q \in 1..Len(cells) |-> q], LAMBDA q : cells[q].t = "text")
Tiled(e, ks) ==
   LET fr == Frames(ks)
       tx == TextsOf(ks)
       tc == TextCells(e.cells)
   IN /\ Len(fr) = Len(e.cells) + 1 /\ Len(tx) = Len(tc)
      /\ IsRect(e, fr[1])
      /\ \A j \in 1..Len(e.cells) : LET kd == Kids(e.cells, j) IN
           e.cells[j].t = "row" /\ kd # <<>> =>
              TilesRow(fr[j], [q \in 1..Len(kd) |-> fr[kd[q]]], DirAt(e.ori, e.cells[j].d))
      /\ \A j \in 1..Len(tc) : /\ tx[j].text = e.cells[tc[j]].s
                                /\ Near(2 * tx[j].x, 2 * fr[tc[j]].x + fr[tc[j]].w)
                                /\ Near(2 * tx[j].y, 2 * fr[tc[j]].y + fr[tc[j]].h)
(* Every cell has room for its text. *)
Roomy(e, ks) == \A j \in Elems(TextCells(e.cells)) :
                   /\ AtMost(TextW(e.cells[j].s, e.look.fs), Frames(ks)[j].w)
                   /\ AtMost(TextH(e.cells[j].s, e.look.fs), Frames(ks)[j].h)
RECURSIVE BlockStart(_, _)
BlockStart(g, a) == IF a = 0 THEN 1 ELSE BlockStart(g, a - 1) + BlockLen(N(g, a - 1))
BlockCalls(g, a) == LET ks == CallsOf(g, {"rect", "circle", "text", "clip", "line"})
                        f == BlockStart(g, a)
                    IN SubSeq(ks, f, f + BlockLen(N(g, a)) - 1)
Ports(e, port) == {j \in 1..Len(e.cells) : e.cells[j].t = "text" /\ e.cells[j].p = port}
(* Where an edge meets a record: on a cell with the port it names. *)
MeetsPort(g, a, port, x, y) ==
   LET e == N(g, a)
       fr == Frames(BlockCalls(g, a))
       js == IF port = <<>> THEN {} ELSE Ports(e, port)
   IN e.kind = "record" =>
        IF js = {} THEN OnRect(x, y, e.x0, e.y0, e.x1, e.y1)
        ELSE \E j \in js : OnRect(x, y, fr[j].x, fr[j].y, fr[j].x + fr[j].w, fr[j].y + fr[j].h)
PortsMet(g) ==
   LET arrows == CallsOf(g, {"arrow"})
       seen == SelectSeq(g.edges, Visible)
   IN \A j \in 1..Len(seen) : \E q \in 1..Len(arrows) :
        LET k == arrows[q]
            e == seen[j]
        IN /\ k.look = e.look /\ k.prop = e.prop
           /\ MeetsPort(g, e.path[1], e.sp, PointX(k, 1), PointY(k, 1))
           /\ MeetsPort(g, e.path[Len(e.path)], e.dp, PointX(k, Len(k.path)), PointY(k, Len(k.path)))
RecordsDrawn(g, roomy) ==
   /\ \A a \in Proper(g) : N(g, a).kind = "record" =>
         Tiled(N(g, a), BlockCalls(g, a)) /\ (roomy => Roomy(N(g, a), BlockCalls(g, a)))
   /\ PortsMet(g)

(****************************** the debug marks *****************************)
(* Every plain call is there, in order, and what comes between are marks.    *)
IsMark(k) == k.c \in {"rect", "line", "circle"}
DebugStep(rest, k) == IF rest # <<>> /\ rest[1] = k THEN Tail(rest) ELSE IF IsMark(k) THEN rest ELSE <<[c |-> "foreign"]>>
OnlyMarks(plain, debug) == FoldLeft(DebugStep, plain, debug) = <<>>
=============================================================================
