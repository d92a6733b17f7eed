------------------------------ MODULE Gen_Cli -------------------------------
(* Command lines: every choice of options, spellings and order up to a size. *)
EXTENDS Cli, Json
Words == {"-d", "--debug", "-a", "--ast", "--no-optz", "--no-layout", "-ad", "-da", "IN", "-o OUT", "--output OUT",
          "--output=OUT", "-oOUT", "-adoOUT", "--no-opt", "-x", "IN2"}
CONSTANT Depth
VARIABLE line
Init == line = <<>>
Split(w) == IF w = "-o OUT" THEN <<"-o", "OUT">> ELSE IF w = "--output OUT" THEN <<"--output", "OUT">> ELSE <<w>>
Flat == FoldLeft(LAMBDA acc, w : acc \o Split(w), <<>>, line)
Next == Len(line) < Depth /\ \E w \in Words : line' = Append(line, w)
Known == Args(Flat).m # "unspec"
(* Only lines that say where the output goes, or fail, are run. *)
Emit == (line # <<>> /\ Known /\ (Args(Flat).m = "usage" \/ Args(Flat).out # <<>>)) => PrintT("@@" \o ToJson(Flat))
(* The order of the words is of no account. *)
Swap(s, j) == [s EXCEPT ![j] = s[j+1], ![j+1] = s[j]]
FlatOf(s) == FoldLeft(LAMBDA acc, w : acc \o Split(w), <<>>, s)
OrderFree == \A j \in 1..(Len(line) - 1) :
   LET a == Args(Flat)
       b == Args(FlatOf(Swap(line, j)))
   IN (a.m = "word" /\ b.m = "word") => a = b
=============================================================================
