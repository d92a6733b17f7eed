------------------------------ MODULE MC_Record ------------------------------
(* All labels over an alphabet up to a length. *)
EXTENDS Record
CONSTANTS Alphabet, MaxLen
VARIABLES text, r
Init == text = <<>> /\ r = RecInit
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ r' = RecStep(r, c)
Spec == Init /\ [][Next]_<<text, r>>
R == CloseAll(r)
IsFold == R = ParseRecord(text)
(* Writing a parsed label gives a label with the same cells. *)
RoundTrip == ParseRecord(WriteRecord(R)) = R
(* The letters of the label are the letters of the cells, in order, up to   *)
(* the brace that ends it.                                                  *)
Letter(c) == c \notin {"{", "}", "|"} \cup RBlanks
TextOf(F) == FlattenSeq([j \in 1..Len(F) |->
    (IF F[j].p = <<>> THEN <<>> ELSE <<"<">> \o CharsOf(F[j].p[1]) \o <<">">>) \o CharsOf(F[j].s)])
Depth(s, k) == Cardinality({j \in 1..k : s[j] = "{"}) - Cardinality({j \in 1..k : s[j] = "}"})
Over == {k \in 1..Len(text) : Depth(text, k) < 0}
Read == IF Over = {} THEN text ELSE SubSeq(text, 1, (CHOOSE k \in Over : \A q \in Over : k <= q) - 1)
NothingLost == SelectSeq(Read, Letter) = SelectSeq(TextOf(Flat(R, 0)), Letter)
(* Cells are never blank, except for an empty label or row. *)
NoBlank == LET F == Flat(R, 0) IN
   \A j \in 1..Len(F) : (F[j].t = "text" /\ F[j].s = "" /\ F[j].p = <<>>)
                        => (Len(F) = 1 \/ \E k \in 1..(Len(text)) : text[k] = "{")
(* Depth follows the braces. *)
MaxDepth == LET F == Flat(R, 0) IN \A j \in 1..Len(F) :
   F[j].d <= 1 + Cardinality({k \in 1..Len(text) : text[k] = "{"})
=============================================================================
