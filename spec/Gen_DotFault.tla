---- MODULE Gen_DotFault ----
(* One statement of every form in the middle of a program, right and with    *)
(* every fault of one token: a token taken out, put in, or exchanged. (The   *)
(* strings of Gen_DotParse end where the fault is; these go on behind it.)   *)
EXTENDS DotText, Json
CONSTANT Kinds
VARIABLES f, k, toks
W(s) == [j \in 1..Len(s) |-> IF s[j] \in {"a", "b", "c", "p", "q", "x", "y", "z"} THEN Tok("id", s[j]) ELSE Tok(s[j], "")]
Forms == <<
   W(<<"a", "=", "x">>), W(<<"a", "=", "x", ";">>), W(<<"a", ";">>), W(<<"a", "b">>), W(<<"a", ":", "p", ";">>), W(<<"a", ":", "p", "b">>),
   W(<<"a", "->", "b">>), W(<<"a", "--", "b", ";">>), W(<<"a", ":", "p", "->", "b", ":", "q">>), W(<<"a", "->", "b", "--", "c", ":", "q">>),
   W(<<"a", "[", "]">>), W(<<"a", "[", "x", "=", "y", "]">>), W(<<"a", ":", "p", "[", "x", "=", "y", "]">>),
   W(<<"a", "[", "x", "=", "y", ",", "p", "=", "q", "]", ";">>), W(<<"a", "[", "x", "=", "y", ";", "p", "=", "q", "]">>),
   W(<<"a", "[", "x", "=", "y", "p", "=", "q", "]">>), W(<<"a", "->", "b", "[", "x", "=", "y", "]">>),
   W(<<"a", "->", "b", "->", "c", "[", "x", "=", "y", ",", "]", ";">>),
   W(<<"node", "[", "x", "=", "y", "]">>), W(<<"edge", "[", "x", "=", "y", "]", ";">>), W(<<"graph", "[", "x", "=", "y", "]">>),
   W(<<"{", "}">>), W(<<"{", "a", "}">>), W(<<"{", "a", "->", "b", ";", "}">>), W(<<"subgraph", "a", "{", "}">>),
   W(<<"subgraph", "a", "{", "b", "}", ";">>), W(<<"subgraph", "{", "b", "=", "x", "}">>), W(<<"{", "{", "a", "}", "b", "}">>),
   W(<<"{", "node", "[", "x", "=", "y", "]", "a", "}">>),
   (* What the language of other tools has and this one does not. *)
   W(<<"a", "[", "x", "=", "y", "]", "[", "p", "=", "q", "]">>), W(<<"a", "->", "b", "[", "x", "=", "y", "]", "[", "p", "=", "q", "]", ";">>),
   W(<<"node", "[", "x", "=", "y", "]", "[", "p", "=", "q", "]">>), W(<<"{", "a", "}", "->", "b">>), W(<<"a", "->", "{", "b", "c", "}">>),
   W(<<"subgraph", "x", "{", "a", "}", "->", "b", ";">>), W(<<"a", "->", "subgraph", "{", "b", "}">>), W(<<"a", ":", "p", ":", "q", ";">>),
   W(<<"a", ":", "p", ":", "q", "->", "b">>), W(<<"a", "[", "x", "]">>), W(<<"a", "[", "x", ",", "y", "]">>), W(<<"a", "->", "b", ":", "p", ":", "q">>),
   W(<<"node", ";">>), W(<<"node", "=", "x">>), W(<<"a", "=", "{", "}">>), W(<<"a", ":", "p", "=", "x">>), W(<<"a", ",", "b">>) >>
Before == << W(<<"digraph", "{">>), W(<<"graph", "c", "{">>), W(<<"strict", "digraph", "{", "c", ";">>), W(<<"digraph", "{", "{">>) >>
After == << W(<<"}">>), W(<<"z", "}">>), W(<<"z", "->", "c", "}">>), W(<<"}", "}">>) >>
T(s) == IF s = "x" THEN Tok("id", s) ELSE Tok(s, "")
Faults(s) == {s}
   \cup {SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s)) : j \in 1..Len(s)}
   \cup {SubSeq(s, 1, j - 1) \o <<T(t)>> \o SubSeq(s, j + 1, Len(s)) : j \in 1..Len(s), t \in Kinds}
   \cup {SubSeq(s, 1, j - 1) \o <<T(t)>> \o SubSeq(s, j, Len(s)) : j \in 1..(Len(s) + 1), t \in Kinds}
   \cup {SubSeq(s, 1, j - 1) \o <<s[j + 1], s[j]>> \o SubSeq(s, j + 2, Len(s)) : j \in 1..(Len(s) - 1)}
Spell(t) == IF t.k = "id" THEN t.s ELSE t.k
(* The scopes of the two halves match. *)
Fits(j, m) == (j = 4) = (m = 4)
Init == f = 0 /\ k = <<0, 0>> /\ toks = <<>>
Next == \/ f = 0 /\ f' \in 1..Len(Forms) /\ k' \in {w \in (1..Len(Before)) \X (1..Len(After)) : Fits(w[1], w[2])} /\ toks' = <<>>
        \/ f > 0 /\ toks = <<>> /\ \E s \in Faults(Forms[f]) : toks' = Before[k[1]] \o s \o After[k[2]] /\ UNCHANGED <<f, k>>
Emit == (toks # <<>> /\ ParseTokens(toks).m # "unspec") => PrintT("@@" \o ToJson([right |-> toks = Before[k[1]] \o Forms[f] \o After[k[2]], toks |-> [j \in 1..Len(toks) |-> Spell(toks[j])]]))
=============================
