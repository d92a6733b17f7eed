---- MODULE Gen_DotParse ----
(* Every token string behind "digraph {" up to a length: all the accepted   *)
(* ones, and every way to leave the language.                               *)
EXTENDS DotText, Json
CONSTANTS MaxLen, Kinds
VARIABLES toks, p
Head0 == <<Tok("digraph", ""), Tok("{", "")>>
T(k) == IF k \in {"a", "b"} THEN Tok("id", k) ELSE Tok(k, "")
Spell(t) == IF t.k = "id" THEN t.s ELSE t.k
Init == \/ toks = Head0 /\ p = ParseTokens(Head0)
        \/ toks = <<>> /\ p = ParseInit
Next == /\ Len(toks) < (IF Len(toks) >= 2 /\ SubSeq(toks, 1, 2) = Head0 THEN 2 ELSE 0) + MaxLen
        /\ ~Final(p)
        /\ \E k \in Kinds : toks' = Append(toks, T(k)) /\ p' = ParseStep(p, T(k))
Emit == p.m # "unspec" => PrintT("@@" \o ToJson([j \in 1..Len(toks) |-> Spell(toks[j])]))
=============================
