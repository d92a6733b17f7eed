----------------------------- MODULE TextLines ------------------------------
(* The lines of a label and the room they are estimated to need.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Chars(s) == [j \in 1..Len(s) |-> SubSeq(s, j, j)]
NoCR(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "\r" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
LinesOf(s) ==     \* Lines end with a line feed, or carriage return and line feed.
   LET cs == Chars(s)
       f == FoldLeft(LAMBDA x, c : IF c = "\n" THEN [done |-> Append(x.done, NoCR(x.cur)), cur |-> ""]
                                   ELSE [x EXCEPT !.cur = @ \o c], [done |-> <<>>, cur |-> ""], cs)
   IN IF f.cur = "" THEN f.done ELSE Append(f.done, f.cur)
MaxN(S) == CHOOSE x \in S : \A y \in S : y <= x
Longest(s) == LET ls == LinesOf(s) IN MaxN({1} \cup {Len(ls[j]) : j \in 1..Len(ls)})
NumLines(s) == MaxN({1, Len(LinesOf(s))})
(* The estimated size, in thousandths: one square of the font per character. *)
TextW(s, fs) == 1000 * fs * Longest(s)
TextH(s, fs) == 1000 * fs * NumLines(s)
=============================================================================
