---- MODULE Gen_Record ----
EXTENDS Record, Json
CONSTANTS Alphabet, MaxLen
VARIABLES text, r
Init == text = <<>> /\ r = RecInit
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ r' = RecStep(r, c)
Fresh == Len(text) < 2 \/ RecStep(RecInit, "a") = r \/ FoldLeft(RecStep, RecInit, SubSeq(text, 1, Len(text)-1)).res = <<>>
Emit == PrintT("@@" \o ToJson(text))
===========================
