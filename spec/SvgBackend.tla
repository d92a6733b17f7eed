----------------------------- MODULE SvgBackend -----------------------------
(***************************************************************************)
(* The SVG writer as a machine: draw calls append elements to the content, *)
(* and register the fonts and clip regions that the head of the document   *)
(* must define when it is finalized.  The viewport only grows.  Finalizing *)
(* is an observation: it may happen at any time and changes nothing.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fonts, Sizes
VARIABLES els, clips, fonts, arrows, view, hist
vars == <<els, clips, fonts, arrows, view, hist>>
NoRef == [clip |-> "", font |-> "", href |-> "", start |-> FALSE, end |-> FALSE, id |-> ""]
Font(f) == "a" \o ToString(f)
Name(p, k) == p \o ToString(k)
Put(seq) == els' = els \o seq
Grow(s) == view' = IF s + 5 > view THEN s + 5 ELSE view
Log(c, fs, clip, hs, he, s) == hist' = Append(hist, [c |-> c, fs |-> fs, clip |-> clip, hs |-> hs, he |-> he, s |-> s])
Init == els = <<>> /\ clips = <<>> /\ fonts = {} /\ arrows = 0 /\ view = 0 /\ hist = <<>>
Rect(clip, s) == /\ Put(<<[NoRef EXCEPT !.clip = IF clip = <<>> THEN "" ELSE clips[clip[1] + 1]]>>)
                 /\ Grow(s) /\ UNCHANGED <<clips, fonts, arrows>> /\ Log("rect", 14, clip, FALSE, FALSE, s)
Oval(s) == Put(<<NoRef>>) /\ Grow(s) /\ UNCHANGED <<clips, fonts, arrows>> /\ Log("circle", 14, <<>>, FALSE, FALSE, s)
Line == Put(<<NoRef>>) /\ UNCHANGED <<clips, fonts, arrows, view>> /\ Log("line", 14, <<>>, FALSE, FALSE, 0)
Text(f, s) == /\ Put(<<[NoRef EXCEPT !.font = Font(f)]>>) /\ fonts' = fonts \cup {f}
              /\ Grow(s) /\ UNCHANGED <<clips, arrows>> /\ Log("text", f, <<>>, FALSE, FALSE, s)
Arrow(f, hs, he, s) ==
   /\ Put(<<[NoRef EXCEPT !.id = Name("arrow", arrows), !.start = hs, !.end = he],
            [NoRef EXCEPT !.href = Name("arrow", arrows), !.font = Font(f)]>>)
   /\ arrows' = arrows + 1 /\ fonts' = fonts \cup {f} /\ Grow(s) /\ UNCHANGED clips
   /\ Log("arrow", f, <<>>, hs, he, s)
Clip(s) == clips' = Append(clips, Name("C", Len(clips))) /\ UNCHANGED <<els, fonts, arrows, view>>
           /\ Log("clip", 14, <<>>, FALSE, FALSE, s)
Next == \/ \E s \in Sizes : \E clip \in {<<>>} \cup {<<j>> : j \in 0..(Len(clips) - 1)} : Rect(clip, s)
        \/ \E s \in Sizes : Oval(s) \/ Clip(s)
        \/ Line
        \/ \E f \in Fonts, s \in Sizes : Text(f, s) \/ \E hs, he \in BOOLEAN : Arrow(f, hs, he, s)
Spec == Init /\ [][Next]_vars
(****************************** the document ********************************)
Doc == [els |-> els, clips |-> clips, fonts |-> {Font(f) : f \in fonts}, view |-> view]
Elems(s) == {s[j] : j \in 1..Len(s)}
Ids(d) == Elems(d.clips) \cup {d.els[j].id : j \in 1..Len(d.els)} \cup {"startarrow", "endarrow"}
Defined == \A j \in 1..Len(els) : LET e == els[j] IN
             /\ e.clip # "" => e.clip \in Elems(Doc.clips)
             /\ e.font # "" => e.font \in Doc.fonts
             /\ e.href # "" => e.href \in Ids(Doc)
Unique == /\ Cardinality(Elems(clips)) = Len(clips)
          /\ \A j, k \in 1..Len(els) : j # k /\ els[j].id # "" => els[j].id # els[k].id
OnlyGrows == [][view' >= view /\ SubSeq(els', 1, Len(els)) = els /\ SubSeq(clips', 1, Len(clips)) = clips
                /\ fonts \subseteq fonts']_vars
=============================================================================
