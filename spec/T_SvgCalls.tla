----------------------------- MODULE T_SvgCalls -----------------------------
(* Histories of draw calls on the real backend, and the document after each: *)
(* the calls are consumed one by one, each finding its element next.         *)
EXTENDS SvgDoc, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l, at, names       \* call, element, names of the clip regions
vars == <<i, l, at, names>>
C == Cases[i]
D == C.out.doc
Clips == SelectSeq(C.calls, LAMBDA k : k.c = "clip")
Init == i = 0 /\ l = 1 /\ at = 1 /\ names = <<>>
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ UNCHANGED <<l, at, names>>
K == C.calls[l]
El(j) == IF j <= Len(D.els) THEN D.els[j] ELSE [e |-> "none"]
Start == C.outcome = "ok" /\ Sound(D) /\ Cardinality(Elem(C.out.handles)) = Len(C.out.handles)
         /\ Len(D.clips) = Len(Clips)
Draw == /\ l \in 1..Len(C.calls) /\ K.c # "clip"
        /\ (IsDrawn(D, names, K, El(at), El(at + 1)) = TRUE)
        /\ l' = l + 1 /\ at' = at + Takes(K) /\ UNCHANGED <<i, names>>
(* A clip region gets a name that no earlier region has. *)
Clip == /\ l \in 1..Len(C.calls) /\ K.c = "clip"
        /\ \E id \in {D.clips[j].id : j \in 1..Len(D.clips)} \ Elem(names) :
              (ClipNamed(D, K, id) = TRUE) /\ names' = Append(names, id)
        /\ l' = l + 1 /\ UNCHANGED <<i, at>>
End == l > Len(C.calls) /\ at = Len(D.els) + 1 /\ l' = -1 /\ UNCHANGED <<i, at, names>>
Next == Pick \/ (i > 0 /\ l # -1 /\ (l = 1 => (Start = TRUE)) /\ (Draw \/ Clip \/ End)) \/ (l = -1 /\ UNCHANGED vars)
=============================================================================
