------------------------------ MODULE MC_DotLex ------------------------------
(* The character machine on every text over an alphabet, up to a length.    *)
EXTENDS DotText
CONSTANTS Alphabet, MaxLen
VARIABLES text, s
(* A configuration file cannot write these characters. *)
EveryKind == {"a", "7", ".", "-", ">", "\"", "\\", "/", "*", "\n", " ", "{", "_", "n"}
Init == text = <<>> /\ s = LexInit
Next == /\ Len(text) < MaxLen /\ s.m \notin {"err", "unspec"}
        /\ \E c \in Alphabet : text' = Append(text, c) /\ s' = LexStep(s, c)
Spec == Init /\ [][Next]_<<text, s>>

SpellChars == [k \in {"->", "--"} |-> IF k = "->" THEN <<"-", ">">> ELSE <<"-", "-">>]
CharsOf(str) == [j \in 1..Len(str) |-> SubSeq(str, j, j)]
Quote(str) == <<"\"">> \o FlattenSeq([j \in 1..Len(str) |->
                 LET c == SubSeq(str, j, j) IN
                 CASE c = "\"" -> <<"\\", "\"">> [] c = "\\" -> <<"\\", "\\">>
                   [] c = "\n" -> <<"\\", "n">> [] OTHER -> <<c>>]) \o <<"\"">>
Spell(t) == CASE t.k = "id" -> Quote(t.s) [] t.k = "eof" -> <<>> [] OTHER -> CharsOf(t.k)
E == LexEnd(s)
Good == E.m = "start"
Toks(x) == SelectSeq(x.t, LAMBDA t : t.k # "eof")

(* The machine is the fold of its step. *)
IsFold == s = LexRun(text)
(* Spelling the tokens out again, apart or touching where that is allowed, *)
(* gives the same tokens.                                                  *)
RoundTrip == Good =>
   Lex(FlattenSeq([j \in 1..Len(E.t) |-> Spell(E.t[j]) \o <<" ">>])).t = E.t
(* Comments and blanks between tokens mean nothing. *)
Separators == Good =>
   \A w \in {<<" ">>, <<"\n">>, <<"/","/","a","\n">>, <<"/","*","\"","*","*","/">>} :
      /\ Lex(FlattenSeq([j \in 1..Len(E.t) |-> Spell(E.t[j]) \o w])).t = E.t
      /\ Lex(text \o w).t = E.t
      /\ Lex(w \o text).t = E.t
(* Tokens that are complete never change when more text follows. *)
Monotone == [][IsPrefix(s.t, s'.t)]_<<text, s>>
OneOutcome == E.m \in {"start", "err", "unspec"}
EndsOnce == Cardinality({j \in 1..Len(E.t) : E.t[j].k \in {"eof","err","unspec"}}) = 1
            /\ E.t[Len(E.t)].k \in {"eof", "err", "unspec"}
ErrPlace == (E.e # <<>>) <=> (E.m = "err")
PlaceInText == E.e # <<>> => E.e[1] \in 0..Len(text)
=============================================================================
