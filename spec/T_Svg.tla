------------------------------- MODULE T_Svg --------------------------------
(* Documents of real drawings: what they show (C20), what they cover (C21). *)
EXTENDS SvgDoc, IOUtils
CONSTANT Subject
L == INSTANCE Layout
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
vars == <<i, st>>
C == Cases[i]
D == C.out.doc
IsScript == C.op = "svgcalls"
(* The labels of the graph as it was built. *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(SubSeq(s, 2, Len(s)))
NodeLabels(n) == CASE n.kind \in {"none", "conn"} -> <<>>
                   [] n.kind = "record" -> LET t == SelectSeq(n.cells, LAMBDA c : c.t = "text") IN [j \in 1..Len(t) |-> t[j].s]
                   [] OTHER -> <<n.text>>
Labels == IF IsScript
          THEN LET t == SelectSeq(C.calls, LAMBDA k : k.c \in {"text", "arrow"}) IN [j \in 1..Len(t) |-> IF t[j].c = "text" THEN t[j].text ELSE OneLine(t[j].text)]
          ELSE Flat([j \in 1..Len(C.out.built.nodes) |-> NodeLabels(C.out.built.nodes[j])])
               \o [j \in 1..Len(C.out.built.edges) |-> C.out.built.edges[j].text]
Calls == IF IsScript THEN C.calls ELSE C.out.main.calls
ViewBox == D.vb = <<0, 0, D.w, D.h>>
Right == CASE Subject = "C20" -> Sound(D) /\ ShowsAll(D, Labels)
           [] Subject = "C21" -> D.ok /\ ViewBox /\ L!Covers(D.w, D.h, Calls) /\ (~IsScript => L!AllFromOrigin(Calls))
Init == i = 0 /\ st = "none"
Next == \/ i = 0 /\ i' \in 1..Len(Cases) /\ st' = "drawn"
        \/ st = "drawn" /\ C.outcome = "ok" /\ (Right = TRUE) /\ st' = "accepted" /\ i' = i
        \/ st = "accepted" /\ UNCHANGED vars
=============================================================================
