------------------------------ MODULE MC_Cross ------------------------------
(* The crossing optimizer as a machine: sweeps of exchanges looking up, down *)
(* or both ways, shuffles between them, and the best rows kept.  Checked     *)
(* over every bipartite chain of levels of the given widths: the rows are    *)
(* only permuted, the result is never worse (and better, where one exchange helps), and no  *)
(* sweep goes on for ever.  *)
EXTENDS Lowering
CONSTANTS Widths, Sweeps
W222 == <<2, 2, 2>>
W33 == <<3, 3>>
W232 == <<2, 3, 2>>
VARIABLES bag, first, rows, best, dir, left
vars == <<bag, first, rows, best, dir, left>>
Base(L) == FoldLeft(LAMBDA acc, w : acc + w, 0, SubSeq(Widths, 1, L - 1))
Rows0 == [L \in 1..Len(Widths) |-> [p \in 1..Widths[L] |-> Base(L) + p - 1]]
AllEdges == UNION {Elems(Rows0[L]) \X Elems(Rows0[L+1]) : L \in 1..(Len(Widths) - 1)}
Init == /\ \E S \in SUBSET AllEdges : bag = [e \in S |-> 1]
        /\ first = Rows0 /\ rows = Rows0 /\ best = Rows0 /\ dir = "none" /\ left = Sweeps
Up(d) == d \in {"up", "both"}
Down(d) == d \in {"down", "both"}
Swapped(L, p) == [rows EXCEPT ![L] = [@ EXCEPT ![p] = rows[L][p+1], ![p+1] = rows[L][p]]]
(* The crossings of row L with the rows that the direction looks at. *)
Seen(d, L, rs) == (IF Up(d) /\ L > 1 THEN CrossIn(bag, rs[L-1], rs[L]) ELSE 0)
                + (IF Down(d) /\ L < Len(rs) THEN CrossIn(bag, rs[L], rs[L+1]) ELSE 0)
CanSwap(d, L, p) == Seen(d, L, Swapped(L, p)) < Seen(d, L, rows)
Swap == /\ dir # "none"
        /\ \E L \in 1..Len(rows) : \E p \in 1..(Len(rows[L]) - 1) :
             CanSwap(dir, L, p) /\ rows' = Swapped(L, p)
        /\ UNCHANGED <<bag, first, best, dir, left>>
Begin == dir = "none" /\ left > 0 /\ dir' \in (IF left = Sweeps THEN {"both"} ELSE {"up", "down", "both"}) /\ UNCHANGED <<bag, first, rows, best, left>>
Quiet == \A L \in 1..Len(rows) : \A p \in 1..(Len(rows[L]) - 1) : ~CanSwap(dir, L, p)
Shuffle(rs) == [L \in 1..Len(rs) |-> IF Len(rs[L]) < 2 THEN rs[L] ELSE Tail(rs[L]) \o <<Head(rs[L])>>]
End == /\ dir # "none" /\ Quiet /\ dir' = "none" /\ left' = left - 1
       /\ best' = IF Crossings(bag, rows) < Crossings(bag, best) THEN rows ELSE best
       /\ rows' = Shuffle(rows) /\ UNCHANGED <<bag, first>>
Next == Begin \/ Swap \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnlyReorders == SameRows(first, rows) /\ SameRows(first, best)
NeverWorse == Crossings(bag, best) <= Crossings(bag, first)
(* The first sweep looks both ways: what one exchange can do is done. *)
DoesSome == (left < Sweeps /\ Improvable(bag, first)) => Crossings(bag, best) < Crossings(bag, first)
Ends == <>(left = 0)
=============================================================================
