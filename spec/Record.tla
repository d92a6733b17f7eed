------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* Record labels (layout/src/gv/record.rs).  A label is read one character *)
(* at a time with a stack of open rows; a cell is                          *)
(*    [t |-> "text", s |-> text, p |-> port, c |-> <<>>]                   *)
(*    [t |-> "row",  s |-> "",   p |-> <<>>, c |-> cells]                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

(* White space, with the characters of Unicode that count as such. *)
RBlanks == {" ", "\t", "\n", "\r", "\f", "", "", " ", " ", " ", " ", " ", " ", " ", " ", " ",
            " ", " ", " ", " ", " ", " ", " ", " ", "　"}
TextCell(s, p) == [t |-> "text", s |-> s, p |-> p, c |-> <<>>]
RowCell(cs)    == [t |-> "row", s |-> "", p |-> <<>>, c |-> cs]

(* Characters of a cell, trimmed. *)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] \in RBlanks THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in RBlanks THEN TrimR(SubSeq(s, 1, Len(s)-1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Str(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)

(* "<port> text" *)
CellOf(chars) ==
   LET s == Trim(chars)
       ends == {j \in 2..Len(s) : s[j] = ">"}
   IN IF s[1] = "<" /\ ends # {}
      THEN LET e == CHOOSE j \in ends : \A k \in ends : j <= k
           IN TextCell(Str(Trim(SubSeq(s, e+1, Len(s)))), <<Str(SubSeq(s, 2, e-1))>>)
      ELSE TextCell(Str(s), <<>>)

(* stk: open rows, innermost last, each [buf |-> characters, arr |-> cells];*)
(* res: the finished record once the outermost row is closed.               *)
Frame == [buf |-> <<>>, arr |-> <<>>]
RecInit == [stk |-> <<Frame>>, res |-> <<>>]
EndCell(f) == IF Trim(f.buf) = <<>> THEN [f EXCEPT !.buf = <<>>]
              ELSE [buf |-> <<>>, arr |-> Append(f.arr, CellOf(f.buf))]
EndRow(f) == LET g == EndCell(f)
             IN IF g.arr = <<>> THEN TextCell("", <<>>) ELSE RowCell(g.arr)
Top(r) == r.stk[Len(r.stk)]
SetTop(r, f) == [r EXCEPT !.stk[Len(r.stk)] = f]
CloseRow(r) ==
   LET row == EndRow(Top(r)) IN
   IF Len(r.stk) = 1 THEN [stk |-> r.stk, res |-> <<row>>]
   ELSE [r EXCEPT !.stk = LET rest == SubSeq(@, 1, Len(@)-1)
                          IN [rest EXCEPT ![Len(rest)].arr = Append(@, row)]]
RecStep(r, c) ==
   IF r.res # <<>> THEN r          \* a brace too many ends the label
   ELSE CASE c = "{" -> LET g == SetTop(r, EndCell(Top(r))) IN [g EXCEPT !.stk = Append(@, Frame)]
          [] c = "|" -> SetTop(r, EndCell(Top(r)))
          [] c = "}" -> CloseRow(r)
          [] OTHER   -> [r EXCEPT !.stk[Len(r.stk)].buf = Append(@, c)]
RECURSIVE CloseAll(_)
CloseAll(r) == IF r.res # <<>> THEN r.res[1] ELSE CloseAll(CloseRow(r))
ParseRecord(chars) == CloseAll(FoldLeft(RecStep, RecInit, chars))

(* Preorder list of the cells, as the harness reports them. *)
RECURSIVE Flat(_, _)
Flat(r, d) == <<[t |-> r.t, d |-> d, s |-> r.s, p |-> r.p, n |-> Len(r.c)]>>
              \o FlattenSeq([j \in 1..Len(r.c) |-> Flat(r.c[j], d+1)])
Cells(chars) == Flat(ParseRecord(chars), 0)

(* Writing a record back as a label. *)
RECURSIVE WriteCell(_), WriteCells(_)
CharsOf(str) == [j \in 1..Len(str) |-> SubSeq(str, j, j)]
WriteCells(cs) == FlattenSeq([j \in 1..Len(cs) |->
                     (IF j > 1 THEN <<"|">> ELSE <<>>) \o WriteCell(cs[j])])
WriteCell(r) == IF r.t = "row" THEN <<"{">> \o WriteCells(r.c) \o <<"}">>
                ELSE IF r.p = <<>> /\ r.s = "" THEN <<"{", "}">>
                ELSE (IF r.p = <<>> THEN <<>> ELSE <<"<">> \o CharsOf(r.p[1]) \o <<">">>) \o CharsOf(r.s)
WriteRecord(r) == IF r.t = "row" THEN WriteCells(r.c) ELSE <<>>
=============================================================================
