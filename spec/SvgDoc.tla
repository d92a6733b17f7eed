------------------------------- MODULE SvgDoc -------------------------------
(***************************************************************************)
(* The SVG document a history of draw calls denotes (backends/svg.rs).     *)
(* A document is what an XML parser sees in it:                            *)
(*   ok            it is well-formed        w h vb   the viewport           *)
(*   els           the drawn elements, in document order                    *)
(*   ids refs      identifiers, and references to them                      *)
(*   clips markers fonts classes   definitions and the classes used         *)
(*   texts         the lines of every text element                          *)
(***************************************************************************)
EXTENDS TextLines, Json, FiniteSetsExt
Illegal == LET a == JsonDeserialize("XmlIllegal.json") IN {a[j] : j \in 1..Len(a)}
Elem(s) == {s[j] : j \in 1..Len(s)}
SvgTol == 2
Close(a, b) == a - b <= SvgTol /\ b - a <= SvgTol

(**************************** the text it shows *****************************)
(* XML cannot carry control characters, and reads a carriage return as a     *)
(* line end: both are left out of the comparison.                            *)
Carried(s) == FoldLeft(LAMBDA x, c : IF c \in Illegal \cup {"\r"} THEN x ELSE x \o c, "", Chars(s))
Unwrapped(s) == FoldLeft(LAMBDA x, c : IF c \in {"\r", "\n"} THEN x ELSE x \o c, "", Chars(s))
ShownLines(label) == LET ls == LinesOf(label) IN [j \in 1..Len(ls) |-> Carried(ls[j])]
ReadLines(ls) == [j \in 1..Len(ls) |-> Unwrapped(ls[j])]
(* The text along an edge is one line. *)
OneLine(label) == FoldLeft(LAMBDA x, c : IF c = "\n" THEN x ELSE x \o c, "", Chars(label))
Bag(p, q) == /\ Len(p) = Len(q)
             /\ \A j \in 1..Len(p) : Cardinality({k \in 1..Len(p) : p[k] = p[j]})
                                   = Cardinality({k \in 1..Len(q) : q[k] = p[j]})
NotBlank(ls) == \E j \in 1..Len(ls) : ls[j] # ""
Blank(ss) == SelectSeq(ss, NotBlank)
ShowsAll(doc, labels) ==
   Bag(Blank([j \in 1..Len(labels) |-> ShownLines(labels[j])]),
       Blank([j \in 1..Len(doc.texts) |-> ReadLines(doc.texts[j])]))
(***************************** sound references *****************************)
Distinct(s) == Cardinality(Elem(s)) = Len(s)
Sound(doc) == /\ doc.ok /\ doc.root = "svg"
              /\ Distinct(doc.ids) /\ Elem(doc.refs) \subseteq Elem(doc.ids)
              /\ Elem(doc.classes) \subseteq {doc.fonts[j].cls : j \in 1..Len(doc.fonts)}
              /\ Distinct([j \in 1..Len(doc.fonts) |-> doc.fonts[j].cls])

(******************** the elements of a history of calls ********************)
FontOf(doc, cls) == LET f == {doc.fonts[j].fs : j \in {q \in 1..Len(doc.fonts) : doc.fonts[q].cls = cls}}
                    IN IF Cardinality(f) = 1 THEN CHOOSE x \in f : TRUE ELSE -1
NoPaint == {"none", "transparent", ""}
Paint(fc, got) == IF fc = <<>> THEN got \in NoPaint \/ (Len(got) = 9 /\ SubSeq(got, 8, 9) = "00") ELSE got = fc[1]
Props(k, el) == el.props = k.props
Stroke(k, el) == el.stroke = k.look.lc /\ el.sw = 1000 * k.look.lw
(* A marker with its tip at the end of the line that it stands on. *)
Tip(m, xs) == LET one == {x \in xs : Cardinality({j \in 1..Len(m.pts) : m.pts[j][1] = x}) = 1}
              IN IF Cardinality(one) = 1 THEN CHOOSE x \in one : TRUE ELSE -1
HeadAt(doc, id, atEnd) ==
   \E j \in 1..Len(doc.markers) :
      LET m == doc.markers[j]
          xs == {m.pts[q][1] : q \in 1..Len(m.pts)}
      IN /\ m.id = id /\ Len(m.pts) = 3 /\ m.orient = "auto"
         /\ Tip(m, xs) = m.refx
         /\ \A q \in 1..3 : m.pts[q][1] = m.refx => m.pts[q][2] = m.refy
         /\ IF atEnd THEN \A x \in xs : x <= m.refx ELSE \A x \in xs : x >= m.refx
Marker(doc, want, id, atEnd) == IF want THEN HeadAt(doc, id, atEnd) ELSE id = ""
Pt(v, q, x, y) == Len(v) >= q + 1 /\ Close(v[q], x) /\ Close(v[q + 1], y)
(* M start C control, control, point  S control, point  S ... *)
Curve(p, cmds) ==
   /\ Len(cmds) = Len(p) /\ cmds[1].c = "M" /\ cmds[2].c = "C"
   /\ Len(cmds[1].v) = 2 /\ Pt(cmds[1].v, 1, p[1][1], p[1][2])
   /\ Len(cmds[2].v) = 6 /\ Pt(cmds[2].v, 1, p[1][3], p[1][4])
   /\ Pt(cmds[2].v, 3, p[2][1], p[2][2]) /\ Pt(cmds[2].v, 5, p[2][3], p[2][4])
   /\ \A j \in 3..Len(p) : /\ cmds[j].c = "S" /\ Len(cmds[j].v) = 4
                           /\ Pt(cmds[j].v, 1, p[j][1], p[j][2]) /\ Pt(cmds[j].v, 3, p[j][3], p[j][4])
Centered(k, el, doc) ==
   LET n == Len(el.lines)
       fs == k.look.fs
   IN /\ FontOf(doc, el.cls) = 1000 * fs
      /\ ReadLines(el.lines) = ShownLines(k.text)
      /\ \A j \in 1..n : Close(el.xs[j], k.x) /\ el.dys[j] = 1000
      /\ Close(el.x, k.x)
      (* line j is j ems below y: the middle of the lines is the point *)
      /\ n > 0 => Close(2 * el.y + (n + 1) * fs * 1000, 2 * k.y)
ClipOf(doc, handles, k) == handles[k.clip[1] + 1]
(* What only some calls can ask for, others do not get. *)
Unasked(k, el) == /\ k.c # "rect" => el.clip = ""
                  /\ k.c # "arrow" => ~el.dash /\ el.ms = "" /\ el.me = ""
IsDrawn(doc, cs, k, el, nxt) == Unasked(k, el) /\
   CASE k.c = "rect" -> /\ el.e = "rect" /\ Close(el.x, k.x) /\ Close(el.y, k.y) /\ Close(el.w, k.w) /\ Close(el.h, k.h)
                        /\ el.rx = 1000 * k.look.rd /\ Paint(k.look.fc, el.fill) /\ Stroke(k, el) /\ Props(k, el)
                        /\ IF k.clip = <<>> THEN el.clip = "" ELSE cs[k.clip[1] + 1] = el.clip
     [] k.c = "circle" -> /\ el.e = "ellipse" /\ Close(el.x, k.x) /\ Close(el.y, k.y)
                          /\ Close(2 * el.w, k.w) /\ Close(2 * el.h, k.h)
                          /\ Paint(k.look.fc, el.fill) /\ Stroke(k, el) /\ Props(k, el)
     [] k.c = "line" -> /\ el.e = "line" /\ Close(el.x, k.x) /\ Close(el.y, k.y) /\ Close(el.w, k.w) /\ Close(el.h, k.h)
                        /\ Stroke(k, el) /\ Props(k, el)
     [] k.c = "text" -> el.e = "text" /\ Centered(k, el, doc)
     [] k.c = "arrow" -> /\ el.e = "path" /\ Curve(k.path, el.path) /\ el.dash = k.dash
                         /\ Marker(doc, k.hs, el.ms, FALSE) /\ Marker(doc, k.he, el.me, TRUE)
                         /\ Paint(<<>>, el.fill) /\ Stroke(k, el) /\ Props(k, el)
                         /\ nxt.e = "textpath" /\ nxt.href = el.id /\ FontOf(doc, nxt.cls) = 1000 * k.look.fs
                         /\ Unwrapped(nxt.text) = Unwrapped(Carried(k.text))
     [] OTHER -> FALSE
Takes(k) == IF k.c = "arrow" THEN 2 ELSE IF k.c = "clip" THEN 0 ELSE 1
(* The region that a clip call asked for is defined under the handle's name. *)
ClipNamed(doc, k, id) == \E j \in 1..Len(doc.clips) :
   LET r == doc.clips[j] IN /\ r.id = id /\ Close(r.x, k.x) /\ Close(r.y, k.y) /\ Close(r.w, k.w) /\ Close(r.h, k.h)
                            /\ r.rx = 1000 * k.rd
=============================================================================
