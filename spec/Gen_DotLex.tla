---- MODULE Gen_DotLex ----
(* Every text over the alphabet up to a length, for the real lexer. *)
EXTENDS DotText, Json
CONSTANTS Alphabet, MaxLen,
          First   \* the characters that a text may start with
VARIABLES text, s
(* A configuration file cannot write these characters. *)
EveryKind == {"a", "7", ".", "-", ">", "\"", "\\", "/", "*", "\n", " ", "{", "_", "n"}
InStrings == {"\"", "\\", "n", "l", "\n"}
Quotes == {"\""}
InComments == {"/", "*", "\n", "a", "\""}
Init == text = <<>> /\ s = LexInit
Next == /\ Len(text) < MaxLen
        /\ \E c \in IF text = <<>> THEN First ELSE Alphabet : text' = Append(text, c) /\ s' = LexStep(s, c)
(* Longer extensions of a text that is already in error add nothing. *)
Fresh == Len(text) <= 2 \/ s.m \notin {"err", "unspec"} \/ LexRun(SubSeq(text, 1, Len(text)-1)).m \notin {"err", "unspec"}
Emit == PrintT("@@" \o ToJson(text))
===========================
