-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool (src/bin/layout.rs): reading the arguments, and   *)
(* what a run leaves behind.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
(******************************* the arguments ******************************)
(* Options may stand in any order, short ones in one word; "value" waits for *)
(* the path of the output.                                                   *)
ArgInit == [m |-> "word", debug |-> FALSE, noopt |-> FALSE, nolayout |-> FALSE, ast |-> FALSE, out |-> <<>>, in |-> <<>>]
Usage(s) == [s EXCEPT !.m = "usage"]
Unknown(s) == [s EXCEPT !.m = "unspec"]      \* an option given twice
SetFlag(s, f) == IF s[f] THEN Unknown(s) ELSE [s EXCEPT ![f] = TRUE]
SetOut(s, w) == IF s.out # <<>> THEN Unknown(s) ELSE [s EXCEPT !.out = <<w>>, !.m = "word"]
Starts(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p
After(w, n) == SubSeq(w, n + 1, Len(w))
RECURSIVE Shorts(_, _)
Shorts(s, w) ==         \* the letters of a word of short options
   IF w = "" \/ s.m # "word" THEN s
   ELSE LET c == SubSeq(w, 1, 1)
            rest == After(w, 1)
        IN CASE c = "d" -> Shorts(SetFlag(s, "debug"), rest)
             [] c = "a" -> Shorts(SetFlag(s, "ast"), rest)
             [] c = "o" /\ rest = "" -> [s EXCEPT !.m = "value"]
             [] c = "o" -> SetOut(s, IF Starts(rest, "=") THEN After(rest, 1) ELSE rest)
             [] OTHER -> Usage(s)
ArgStep(s, w) ==
   CASE s.m = "value" -> IF Starts(w, "-") THEN Usage(s) ELSE SetOut(s, w)
     [] s.m = "word" ->
          CASE w = "--debug" -> SetFlag(s, "debug")
            [] w = "--ast" -> SetFlag(s, "ast")
            [] w = "--no-optz" -> SetFlag(s, "noopt")
            [] w = "--no-layout" -> SetFlag(s, "nolayout")
            [] w = "--output" -> [s EXCEPT !.m = "value"]
            [] Starts(w, "--output=") -> SetOut(s, After(w, 9))
            [] Starts(w, "--") -> Usage(s)
            [] Starts(w, "-") -> Shorts(s, After(w, 1))
            [] OTHER -> IF s.in # <<>> THEN Usage(s) ELSE [s EXCEPT !.in = <<w>>]
     [] OTHER -> s
Args(ws) == LET s == FoldLeft(ArgStep, ArgInit, ws)
            IN IF s.m = "value" \/ (s.m = "word" /\ s.in = <<>>) THEN Usage(s) ELSE s
(* Where the picture for these options stands among the eight.               *)
DocAt(s) == 1 + (IF s.debug THEN 1 ELSE 0) + (IF s.noopt THEN 2 ELSE 0) + (IF s.nolayout THEN 4 ELSE 0)

(****************************** the printed tree ****************************)
RECURSIVE Spaces(_)
Spaces(k) == IF k = 0 THEN "" ELSE " " \o Spaces(k - 1)
IdText(n, p) == IF p = <<>> THEN n ELSE n \o ":" \o p[1]
LineOf(d, x) == Spaces(d) \o x \o "\n"
Listed(a, d) == FoldLeft(LAMBDA acc, j : acc \o LineOf(d, ToString(j - 1) \o ")\"" \o a[j][1] \o "\" = \"" \o a[j][2] \o "\""),
                         "", [j \in 1..Len(a) |-> j])
Target == [graph |-> "Attribute Graph:", node |-> "Attribute Node:", edge |-> "Attribute Edge:"]
PrintEv(s, e) ==
   LET d == s.d
       put(x) == [s EXCEPT !.t = @ \o x]
   IN CASE e.e = "open" -> [put(LineOf(d, "Graph: " \o e.n)) EXCEPT !.d = @ + 1]
        [] e.e = "close" -> [s EXCEPT !.d = @ - 1]
        [] e.e = "node" -> put("Node " \o Spaces(d) \o LineOf(d + 1, IdText(e.n, e.p)) \o Listed(e.a, d + 1))
        [] e.e = "attr" -> put(LineOf(d, Target[e.n]) \o Listed(e.a, d + 1))
        [] e.e = "edge" -> put(LineOf(d + 1, IdText(e.n, e.p))
                               \o FoldLeft(LAMBDA acc, h : acc \o LineOf(d + 1, h.k) \o LineOf(d + 1, IdText(h.n, h.p)), "", e.c)
                               \o Listed(e.a, d + 1))
AstText(evs) == FoldLeft(PrintEv, [t |-> "", d |-> 0], evs).t
=============================================================================
