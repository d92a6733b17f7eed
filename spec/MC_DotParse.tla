----------------------------- MODULE MC_DotParse -----------------------------
(* The token machine against the declarative grammar, on every token string *)
(* up to a length behind "digraph {".                                       *)
EXTENDS DotText
CONSTANTS MaxLen, Kinds
VARIABLES toks, p
Head0 == <<Tok("digraph", ""), Tok("{", "")>>
T(k) == IF k \in {"a", "b"} THEN Tok("id", k) ELSE Tok(k, "")
Init == \/ toks = Head0 /\ p = ParseTokens(Head0)
        \/ toks = <<>> /\ p = ParseInit
Next == /\ Len(toks) < (IF Len(toks) >= 2 /\ SubSeq(toks, 1, 2) = Head0 THEN 2 ELSE 0) + MaxLen
        /\ ~Final(p)
        /\ \E k \in Kinds : toks' = Append(toks, T(k)) /\ p' = ParseStep(p, T(k))
Spec == Init /\ [][Next]_<<toks, p>>

EOF1 == ParseStep(p, Tok("eof", ""))
MachineIsGrammar == p.m # "unspec" => ((EOF1.m = "accept") <=> IsGraph(toks))
(* What is accepted can be written back and parses to the same program. *)
RoundTrip == EOF1.m = "accept" => LET q == ParseTokens(Unparse(p.ev)) IN
                                  q.m = "accept" /\ q.ev = [p.ev EXCEPT ![1].n = p.ev[1].n]
(* No identifier is lost or invented. *)
Ids(ts) == SelectSeq([j \in 1..Len(ts) |-> IF ts[j].k = "id" THEN ts[j].s ELSE ""], LAMBDA x : x # "")
EvIds(e) == CASE e.e = "node" -> <<e.n>> \o e.p \o FlattenSeq(e.a)
              [] e.e = "edge" -> <<e.n>> \o e.p \o FlattenSeq([j \in 1..Len(e.c) |-> <<e.c[j].n>> \o e.c[j].p]) \o FlattenSeq(e.a)
              [] e.e = "attr" -> FlattenSeq(e.a)
              [] e.e = "open" -> IF e.n \in {"", Anonymous} THEN <<>> ELSE <<e.n>>
              [] OTHER -> <<>>
NothingLost == EOF1.m = "accept" =>
   Ids(toks) = FlattenSeq([j \in 1..Len(p.ev) |-> EvIds(p.ev[j])])
Balanced == EOF1.m = "accept" =>
   Cardinality({j \in 1..Len(p.ev) : p.ev[j].e = "open"}) = Cardinality({j \in 1..Len(p.ev) : p.ev[j].e = "close"})
=============================================================================
