------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* From statements to a graph (layout/src/gv/builder.rs).  The events of   *)
(* DotText drive the machine                                               *)
(*   gs ns es   stacks of attribute defaults (graph, node, edge), the      *)
(*              scoped maps of ScopedMap                                   *)
(*   nodes      nodes in the order of first mention: [n name, a attributes]*)
(*   edges      [f, t ends (0-based), a attributes, dir, sp, dp]           *)
(*   root       the attributes of the outermost graph when it closes       *)
(***************************************************************************)
EXTENDS TextLines, Functions

LOCAL INSTANCE Record
LOCAL INSTANCE Colors

None == [k \in {} |-> ""]
Set(f, k, v) == (k :> v) @@ f
SetAll(f, list) == FoldLeft(LAMBDA g, kv : Set(g, kv[1], kv[2]), f, list)
(* What is visible: inner definitions hide outer ones. *)
Visible(stack) == FoldLeft(LAMBDA g, scope : scope @@ g, None, stack)
Inner(stack) == Append(stack, None)
Outer(stack) == SubSeq(stack, 1, Len(stack) - 1)
Default(stack, list) == [stack EXCEPT ![Len(stack)] = SetAll(@, list)]

BuildInit == [gs |-> <<>>, ns |-> <<>>, es |-> <<>>, nodes |-> <<>>, edges |-> <<>>, root |-> None]

Known(b, name) == \E j \in 1..Len(b.nodes) : b.nodes[j].n = name
Index(b, name) == CHOOSE j \in 1..Len(b.nodes) : b.nodes[j].n = name
(* A mention creates the node, and leaves a node that exists alone. *)
Mention(b, name) == IF Known(b, name) THEN b
                    ELSE [b EXCEPT !.nodes = Append(@, [n |-> name, a |-> Visible(b.ns)])]
(* A declaration adds its own attributes. *)
Declare(b, name, list) ==
   LET c == Mention(b, name)
   IN [c EXCEPT !.nodes[Index(c, name)].a = SetAll(@, list)]
(* hops: the nodes of the edge statement after the first. *)
RECURSIVE Hops(_, _, _, _, _)
Hops(b, from, port, hops, a) ==
   IF hops = <<>> THEN b
   ELSE LET h == hops[1]
            c == Mention(b, h.n)
            e == [f |-> Index(c, from) - 1, t |-> Index(c, h.n) - 1, a |-> a,
                  dir |-> (h.k = "->"), sp |-> port, dp |-> h.p]
        IN Hops([c EXCEPT !.edges = Append(@, e)], h.n, h.p, Tail(hops), a)

BuildStep(b, e) ==
   CASE e.e = "open"  -> [b EXCEPT !.gs = Inner(@), !.ns = Inner(@), !.es = Inner(@)]
     [] e.e = "close" -> [b EXCEPT !.root = Visible(b.gs), !.gs = Outer(@), !.ns = Outer(@), !.es = Outer(@)]
     [] e.e = "attr" /\ e.n = "graph" -> [b EXCEPT !.gs = Default(@, e.a)]
     [] e.e = "attr" /\ e.n = "node"  -> [b EXCEPT !.ns = Default(@, e.a)]
     [] e.e = "attr" /\ e.n = "edge"  -> [b EXCEPT !.es = Default(@, e.a)]
     [] e.e = "node"  -> Declare(b, e.n, e.a)
     [] e.e = "edge"  -> Hops(Mention(b, e.n), e.n, e.p, e.c, SetAll(Visible(b.es), e.a))
Build(evs) == FoldLeft(BuildStep, BuildInit, evs)

(***************************** attributes -> look ***************************)
Has(a, k) == k \in DOMAIN a
Get(a, k, d) == IF Has(a, k) THEN a[k] ELSE d
HexDigits == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"}
UpDown == ("A" :> "a") @@ ("B" :> "b") @@ ("C" :> "c") @@ ("D" :> "d") @@ ("E" :> "e") @@ ("F" :> "f")
Lower(s) == FoldLeft(LAMBDA x, c : x \o (IF c \in DOMAIN UpDown THEN UpDown[c] ELSE c), "", Chars(s))
(* The first of a list of colors; transparent shows as white. *)
FirstColor(s) == LET cut == {j \in 1..Len(s) : SubSeq(s, j, j) = ":"}
                     one == IF cut = {} THEN s ELSE SubSeq(s, 1, (CHOOSE j \in cut : \A k \in cut : j <= k) - 1)
                 IN IF one = "transparent" THEN "white" ELSE one
IsHex(s) == Len(s) > 0 /\ \A j \in 1..Len(s) : SubSeq(s, j, j) \in HexDigits
(* Web form #rrggbbaa; "" where any answer is accepted. *)
Web(name) ==
   IF name \in DOMAIN Named THEN "#" \o Named[name] \o "ff"
   ELSE IF Len(name) > 0 /\ SubSeq(name, 1, 1) = "#"
        THEN LET h == SubSeq(name, 2, Len(name)) IN
             CASE IsHex(h) /\ Len(h) = 6 -> "#" \o Lower(h) \o "ff"
               [] IsHex(h) /\ Len(h) = 8 -> "#" \o Lower(h)
               [] IsHex(h) -> ""
               [] Len(h) > 0 /\ SubSeq(h, 1, 1) \in {"#", "+"} -> ""
               [] OTHER -> "#000000ff"
        ELSE "#000000ff"
DigitVal == ("0":>0) @@ ("1":>1) @@ ("2":>2) @@ ("3":>3) @@ ("4":>4) @@ ("5":>5) @@ ("6":>6) @@ ("7":>7) @@ ("8":>8) @@ ("9":>9)
IsNum(s) == Len(s) \in 1..9 /\ \A j \in 1..Len(s) : SubSeq(s, j, j) \in DOMAIN DigitVal
Num(s) == FoldLeft(LAMBDA x, c : 10 * x + DigitVal[c], 0, Chars(s))
NumOr(a, k, d) == IF Has(a, k) /\ IsNum(a[k]) THEN Num(a[k]) ELSE d

ShapeOf(a) == LET s == Get(a, "shape", "") IN
   CASE s = "box" -> "box" [] s = "doublecircle" -> "dcircle"
     [] s \in {"record", "Mrecord"} -> "record" [] OTHER -> "circle"
FillOf(a) == IF Has(a, "fillcolor") THEN FirstColor(a["fillcolor"])
             ELSE IF Get(a, "style", "") = "filled" THEN "lightgray" ELSE "white"
NodeLook(a) == [lc |-> Web(FirstColor(Get(a, "color", "black"))), lw |-> NumOr(a, "width", 1),
                fc |-> <<Web(FillOf(a))>>, rd |-> IF Get(a, "shape", "") = "Mrecord" THEN 15 ELSE 0,
                fs |-> NumOr(a, "fontsize", 14)]
EdgeLook(a) == [lc |-> Web(FirstColor(Get(a, "color", "black"))), lw |-> NumOr(a, "penwidth", 1),
                fc |-> <<>>, rd |-> 0, fs |-> NumOr(a, "fontsize", 14)]
SameColor(want, got) == want = "" \/ want = got
SameLook(want, got) == /\ SameColor(want.lc, got.lc) /\ want.lw = got.lw /\ want.rd = got.rd /\ want.fs = got.fs
                       /\ Len(want.fc) = Len(got.fc)
                       /\ \A j \in 1..Len(want.fc) : SameColor(want.fc[j], got.fc[j])

(* The text of a node, and the room it needs (thousandths of a unit). *)
Label(nd) == Get(nd.a, "label", nd.n)
FitsText(w, h, s, fs) == fs > 9999 \/ (w >= 1000 * fs * Longest(s) /\ h >= 1000 * fs * NumLines(s))

NodeMatches(nd, got) ==
   LET kind == ShapeOf(nd.a) IN
   /\ got.kind = kind
   /\ IF kind = "record" THEN got.cells = Cells(Chars(Label(nd))) ELSE got.text = Label(nd)
   /\ SameLook(NodeLook(nd.a), got.look)
   /\ kind # "record" => FitsText(got.w, got.h, Label(nd), got.look.fs)
   /\ kind = "dcircle" => got.w = got.h
   /\ got.prop = <<>>
EdgeStyle(a) == IF Get(a, "style", "") = "dashed" THEN "dashed" ELSE "normal"
EdgeMatches(e, got) ==
   /\ got.path = <<e.f, e.t>> /\ got.start = FALSE /\ got.end = e.dir
   /\ got.sp = e.sp /\ got.dp = e.dp
   /\ got.text = Get(e.a, "label", "") /\ got.style = EdgeStyle(e.a)
   /\ SameLook(EdgeLook(e.a), got.look) /\ got.prop = <<>>
Direction(b) == IF Get(b.root, "rankdir", "TB") = "LR" THEN "LR" ELSE "TB"

(* The structure alone: who is there and who is joined to whom. *)
NodeIsThere(nd, got) ==
   ~Has(nd.a, "label") => (got.kind # "record" => got.text = nd.n)
EdgeJoins(e, got) == /\ got.path = <<e.f, e.t>> /\ got.start = FALSE /\ got.end = e.dir
                     /\ got.sp = e.sp /\ got.dp = e.dp
SameStructure(b, g) == /\ g.ori = Direction(b)
                       /\ Len(g.nodes) = Len(b.nodes) /\ Len(g.edges) = Len(b.edges)
                       /\ \A j \in 1..Len(b.nodes) : NodeIsThere(b.nodes[j], g.nodes[j])
                       /\ \A j \in 1..Len(b.edges) : EdgeJoins(b.edges[j], g.edges[j])
SameGraph(b, g) == /\ SameStructure(b, g)
                   /\ \A j \in 1..Len(b.nodes) : NodeMatches(b.nodes[j], g.nodes[j])
                   /\ \A j \in 1..Len(b.edges) : EdgeMatches(b.edges[j], g.edges[j])
=============================================================================
