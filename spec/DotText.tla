------------------------------- MODULE DotText -------------------------------
(***************************************************************************)
(* The DOT front end (layout/src/gv/parser) as two machines.               *)
(*                                                                         *)
(* LexStep consumes one character and produces tokens; ParseStep consumes  *)
(* one token and produces the statements as a list of events:              *)
(*    open(name)  node  edge  attr  close                                  *)
(* Both have the absorbing outcomes "err"/"reject" (the text must be       *)
(* reported as an error) and "unspec": inputs that the documentation does  *)
(* not settle (listed in DESIGN.md), where either answer is accepted.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
            "r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
            "R","S","T","U","V","W","X","Y","Z"}
Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Blanks  == {" ", "\t", "\n", "\r", "\f"}
Puncts  == {"=", ";", ":", "[", "]", "{", "}", ","}
Marks   == {"!","\"","#","$","%","&","'","(",")","*","+","-",".","/","<",">","?",
            "@","\\","^","_","`","|","~"}
Ascii   == Letters \cup Digits \cup Blanks \cup Puncts \cup Marks
Keywords == {"graph", "node", "edge", "digraph", "strict", "subgraph"}

(***************************** characters -> tokens *************************)
(* m mode, b text of the token being read, t tokens so far, n characters    *)
(* consumed, e the place of the error (<<>> or <<place>>).                  *)
LexInit == [m |-> "start", b |-> "", t |-> <<>>, n |-> 0, e |-> <<>>]
Tok(k, s) == [k |-> k, s |-> s]
Put(s, tok) == [s EXCEPT !.t = Append(@, tok), !.m = "start", !.b = ""]
Word(b) == IF b \in Keywords THEN Tok(b, "") ELSE Tok("id", b)
LexErr(s) == [s EXCEPT !.m = "err", !.t = Append(@, Tok("err", "")), !.e = <<s.n>>]
LexUnspec(s) == [s EXCEPT !.m = "unspec", !.t = Append(@, Tok("unspec", ""))]
Go(s, mode, b) == [s EXCEPT !.m = mode, !.b = b]

LexStart(s, c) ==
   CASE c \in Blanks  -> Go(s, "start", "")
     [] c \in Puncts  -> Put(s, Tok(c, ""))
     [] c \in Letters -> Go(s, "id", c)
     [] c \in Digits  -> Go(s, "num", c)
     [] c = "\""      -> Go(s, "str", "")
     [] c = "-"       -> Go(s, "dash", "")
     [] c = "/"       -> Go(s, "slash", "")
     [] OTHER         -> LexErr(s)

LexMode(s, c) ==
   CASE s.m = "start" -> LexStart(s, c)
     [] s.m = "id" ->
          IF c \in Letters \cup Digits \cup {"_"} THEN Go(s, "id", s.b \o c)
          ELSE LexStart(Put(s, Word(s.b)), c)
     [] s.m \in {"num", "dot"} ->
          IF c \in Digits THEN Go(s, s.m, s.b \o c)
          ELSE IF c = "." /\ s.m = "num" THEN Go(s, "dot", s.b \o c)
          ELSE IF c \notin Ascii THEN LexUnspec(s)
          ELSE LexStart(Put(s, Tok("id", s.b)), c)
     [] s.m = "dash" ->
          CASE c = ">" -> Put(s, Tok("->", ""))
            [] c = "-" -> Put(s, Tok("--", ""))
            [] c \in Digits -> Go(s, "num", "-" \o c)
            [] OTHER -> LexErr(s)
     [] s.m = "str" ->
          CASE c = "\"" -> Put(s, Tok("id", s.b))
            [] c = "\\" -> Go(s, "esc", s.b)
            [] OTHER    -> Go(s, "str", s.b \o c)
     [] s.m = "esc" -> Go(s, "str", s.b \o (IF c \in {"n", "l"} THEN "\n" ELSE c))
     [] s.m = "slash" ->
          CASE c = "/" -> Go(s, "line", "")
            [] c = "*" -> Go(s, "block", "")
            [] OTHER   -> LexUnspec(s)
     [] s.m = "line"  -> IF c \in {"\n", "\r"} THEN Go(s, "start", "") ELSE s
     [] s.m = "block" -> IF c = "*" THEN Go(s, "star", "") ELSE s
     [] s.m = "star"  -> IF c = "/" THEN Go(s, "start", "")
                         ELSE IF c = "*" THEN s ELSE Go(s, "block", "")
     [] OTHER -> s                        \* err, unspec

LexStep(s, c) == LET r == [s EXCEPT !.n = @ + 1]
                 IN IF s.m \in {"err", "unspec"} THEN s
                    ELSE LexMode(r, c)
LexEnd(s) ==
   CASE s.m \in {"start", "line"} -> Put(s, Tok("eof", ""))
     [] s.m = "id" -> Put(Put(s, Word(s.b)), Tok("eof", ""))
     [] s.m \in {"num", "dot"} -> Put(Put(s, Tok("id", s.b)), Tok("eof", ""))
     [] s.m \in {"dash", "str", "esc"} -> LexErr(s)
     [] s.m \in {"slash", "block", "star"} -> LexUnspec(s)
     [] OTHER -> s
LexRun(chars) == FoldLeft(LexStep, LexInit, chars)
Lex(chars) == LexEnd(LexRun(chars))

(****************************** tokens -> statements ************************)
(* m mode, d the number of open scopes, ev the events so far, cur the       *)
(* statement being read, key an attribute name, k the kind of an arrow, who *)
(* the kind of statement the attribute list belongs to.                     *)
Ev(e, n, p, a, c) == [e |-> e, n |-> n, p |-> p, a |-> a, c |-> c]
NoEv == Ev("", "", <<>>, <<>>, <<>>)
ParseInit == [m |-> "begin", d |-> 0, ev |-> <<>>, cur |-> NoEv, key |-> "", k |-> ""]
Anonymous == "*"

To(p, mode) == [p EXCEPT !.m = mode]
Reject(p) == To(p, "reject")
UnspecP(p) == To(p, "unspec")
Out(p, e) == [p EXCEPT !.ev = Append(@, e), !.cur = NoEv]
Open(p, name) == [p EXCEPT !.ev = Append(@, Ev("open", name, <<>>, <<>>, <<>>)),
                           !.d = @ + 1, !.m = "sep", !.cur = NoEv]
CloseScope(p) == [p EXCEPT !.ev = Append(@, Ev("close", "", <<>>, <<>>, <<>>)),
                           !.d = @ - 1, !.m = IF p.d = 1 THEN "end" ELSE "done"]

(* The first token of a statement. *)
Stmt(p, t) ==
   CASE t.k = "id" -> [p EXCEPT !.m = "node0", !.cur = Ev("node", t.s, <<>>, <<>>, <<>>)]
     [] t.k = "subgraph" -> To(p, "sg")
     [] t.k \in {"graph", "node", "edge"} ->
          [p EXCEPT !.m = "open[", !.cur = Ev("attr", t.k, <<>>, <<>>, <<>>)]
     [] t.k = "{" -> Open(p, Anonymous)
     [] t.k = "}" -> CloseScope(p)
     [] OTHER -> Reject(p)
Done(p) == To(Out(p, p.cur), "done")
Sep(p, t) == IF t.k = ";" THEN To(p, "sep") ELSE Stmt(p, t)    \* after a statement

NodeNext(p, t) ==      \* after a complete node id
   CASE t.k \in {"->", "--"} -> [p EXCEPT !.m = "target", !.k = t.k, !.cur.e = "edge"]
     [] t.k \in {"id", ";", "}"} -> Sep(Done(p), t)
     [] t.k = "[" -> To(p, "list")
     [] OTHER -> Reject(p)
EdgeNext(p, t) ==      \* after a complete edge target
   CASE t.k \in {"->", "--"} -> [p EXCEPT !.m = "target", !.k = t.k]
     [] t.k = "[" -> To(p, "list")
     [] OTHER -> Sep(Done(p), t)
ListItem(p, t) ==
   CASE t.k = "]" -> Done(p)
     [] t.k = "id" -> [p EXCEPT !.m = "eq", !.key = t.s]
     [] OTHER -> Reject(p)

ParseStep0(p, t) ==
   CASE p.m = "begin" ->
          CASE t.k = "strict" -> To(p, "kind")
            [] t.k \in {"graph", "digraph"} -> To(p, "name")
            [] t.k = "subgraph" -> UnspecP(p)
            [] OTHER -> Reject(p)
     [] p.m = "kind" ->
          CASE t.k \in {"graph", "digraph"} -> To(p, "name")
            [] t.k = "subgraph" -> UnspecP(p)
            [] OTHER -> Reject(p)
     [] p.m = "name" ->
          CASE t.k = "id" -> [p EXCEPT !.m = "brace", !.cur.n = t.s]
            [] t.k = "{"  -> Open(p, "")
            [] OTHER -> Reject(p)
     [] p.m \in {"brace", "sgbrace"} -> IF t.k = "{" THEN Open(p, p.cur.n) ELSE Reject(p)
     [] p.m = "sep" -> IF t.k = ";" THEN UnspecP(p) ELSE Stmt(p, t)
     [] p.m = "done" -> Sep(p, t)
     [] p.m = "sg" ->
          CASE t.k = "id" -> [p EXCEPT !.m = "sgbrace", !.cur.n = t.s]
            [] t.k = "{"  -> Open(p, "")
            [] OTHER -> Reject(p)
     [] p.m = "node0" ->
          CASE t.k = ":" -> To(p, "port")
            [] t.k = "=" -> To(p, "assign")
            [] OTHER -> NodeNext(p, t)
     [] p.m = "port" -> IF t.k = "id" THEN [p EXCEPT !.m = "node1", !.cur.p = <<t.s>>] ELSE Reject(p)
     [] p.m = "node1" -> NodeNext(p, t)
     [] p.m = "assign" ->
          IF t.k = "id"
          THEN To(Out(p, Ev("attr", "graph", <<>>, <<<<p.cur.n, t.s>>>>, <<>>)), "done")
          ELSE Reject(p)
     [] p.m = "target" ->
          IF t.k = "id" THEN [p EXCEPT !.m = "edge0", !.cur.c = Append(@, [n |-> t.s, p |-> <<>>, k |-> p.k])]
          ELSE Reject(p)
     [] p.m = "edge0" -> IF t.k = ":" THEN To(p, "eport") ELSE EdgeNext(p, t)
     [] p.m = "eport" ->
          IF t.k = "id" THEN [p EXCEPT !.m = "edge1", !.cur.c[Len(p.cur.c)].p = <<t.s>>]
          ELSE Reject(p)
     [] p.m = "edge1" -> EdgeNext(p, t)
     [] p.m = "open[" -> IF t.k = "[" THEN To(p, "list") ELSE Reject(p)
     [] p.m = "list" -> ListItem(p, t)
     [] p.m = "eq"   -> IF t.k = "=" THEN To(p, "val") ELSE Reject(p)
     [] p.m = "val"  ->
          IF t.k = "id" THEN [p EXCEPT !.m = "item", !.cur.a = Append(@, <<p.key, t.s>>)]
          ELSE Reject(p)
     [] p.m = "item" ->
          CASE t.k = ";" -> To(p, "semi")
            [] t.k = "," -> To(p, "list")
            [] OTHER -> ListItem(p, t)
     [] p.m = "semi" -> IF t.k = "," THEN UnspecP(p) ELSE ListItem(p, t)
     [] p.m = "end"  -> IF t.k = "eof" THEN To(p, "accept") ELSE Reject(p)
     [] OTHER -> Reject(p)
Final(p) == p.m \in {"accept", "reject", "unspec"}
ParseStep(p, t) == IF Final(p) THEN p
                   ELSE IF t.k = "unspec" THEN UnspecP(p) ELSE ParseStep0(p, t)
ParseTokens(toks) == FoldLeft(ParseStep, ParseInit, toks)
Parse(chars) == ParseTokens(Lex(chars).t)

(***************** The grammar, stated declaratively ************************)
(* A second, independent statement of the supported language: which token   *)
(* sequences are graphs.  (The machine above is checked against it.)        *)
K(s, j) == s[j].k
Sub(s, a, b) == SubSeq(s, a, b)
IsId(s) == Len(s) = 1 /\ K(s, 1) = "id"
IsNodeId(s) == IsId(s) \/ (Len(s) = 3 /\ K(s,1) = "id" /\ K(s,2) = ":" /\ K(s,3) = "id")
RECURSIVE IsAList(_)
IsAList(s) == \/ s = <<>>
              \/ /\ Len(s) >= 3 /\ K(s,1) = "id" /\ K(s,2) = "=" /\ K(s,3) = "id"
                 /\ \/ IsAList(Sub(s, 4, Len(s)))
                    \/ Len(s) >= 4 /\ K(s,4) \in {";", ","} /\ IsAList(Sub(s, 5, Len(s)))
IsAttrs(s) == Len(s) >= 2 /\ K(s,1) = "[" /\ K(s,Len(s)) = "]" /\ IsAList(Sub(s, 2, Len(s)-1))
RECURSIVE IsHops(_)
IsHops(s) == \E j \in 2..Len(s) :
                /\ K(s,1) \in {"->", "--"} /\ IsNodeId(Sub(s, 2, j))
                /\ (j = Len(s) \/ IsHops(Sub(s, j+1, Len(s))))
IsEdge(s) == \E h \in 1..Len(s) : \E j \in (h+1)..Len(s) :
                /\ IsNodeId(Sub(s, 1, h)) /\ IsHops(Sub(s, h+1, j))
                /\ (j = Len(s) \/ IsAttrs(Sub(s, j+1, Len(s))))
IsAttrStmt(s) == Len(s) >= 1 /\ K(s,1) \in {"graph","node","edge"} /\ IsAttrs(Sub(s, 2, Len(s)))
IsAssign(s) == Len(s) = 3 /\ K(s,1) = "id" /\ K(s,2) = "=" /\ K(s,3) = "id"
IsBareNode(s) == IsNodeId(s)
IsNodeWithAttrs(s) == \E j \in 1..(Len(s)-1) : IsNodeId(Sub(s,1,j)) /\ IsAttrs(Sub(s, j+1, Len(s)))
RECURSIVE IsList(_), IsScope(_)
IsScope(s) == \E j \in 1..Len(s) :
                 /\ K(s,j) = "{" /\ K(s,Len(s)) = "}" /\ j < Len(s)
                 /\ j <= 3
                 /\ (j = 1 \/ K(s,1) = "subgraph") /\ (j = 3 => K(s,2) = "id")
                 /\ IsList(Sub(s, j+1, Len(s)-1))
(* A bare node is followed by another node id, a semicolon or the brace. *)
IsList(s) ==
   \/ s = <<>>
   \/ \E j \in 1..Len(s) :
        LET st == Sub(s, 1, j)
            rest == Sub(s, j+1, Len(s))
            full == IsEdge(st) \/ IsAttrStmt(st) \/ IsAssign(st) \/ IsNodeWithAttrs(st) \/ IsScope(st)
        IN \/ full /\ IsList(rest)
           \/ (full \/ IsBareNode(st)) /\ rest # <<>> /\ K(rest,1) = ";"
                 /\ (Len(rest) = 1 \/ K(rest,2) # ";") /\ IsList(Sub(rest, 2, Len(rest)))
           \/ IsBareNode(st) /\ (rest = <<>> \/ K(rest,1) = "id") /\ IsList(rest)
IsGraph(s) == \E h \in 0..1 : \E g \in 0..1 :
   /\ Len(s) >= 3 + h + g /\ (h = 1 => K(s,1) = "strict")
   /\ K(s, h+1) \in {"graph", "digraph"} /\ (g = 1 => K(s, h+2) = "id")
   /\ K(s, h+g+2) = "{" /\ K(s, Len(s)) = "}" /\ IsList(Sub(s, h+g+3, Len(s)-1))

(************************ Writing statements back ***************************)
IdTok(n) == Tok("id", n)
WriteId(n, p) == IF p = <<>> THEN <<IdTok(n)>> ELSE <<IdTok(n), Tok(":",""), IdTok(p[1])>>
WriteList(a) == <<Tok("[","")>>
   \o FlattenSeq([j \in 1..Len(a) |-> <<IdTok(a[j][1]), Tok("=",""), IdTok(a[j][2]), Tok(",","")>>])
   \o <<Tok("]","")>>
WriteEv(e, first) ==
   CASE e.e = "open" -> IF first THEN <<Tok("digraph",""), IdTok(e.n), Tok("{","")>>
                        ELSE IF e.n = Anonymous THEN <<Tok("{","")>>
                        ELSE <<Tok("subgraph",""), IdTok(e.n), Tok("{","")>>
     [] e.e = "close" -> <<Tok("}","")>>
     [] e.e = "node" -> WriteId(e.n, e.p) \o WriteList(e.a)
     [] e.e = "edge" -> WriteId(e.n, e.p)
           \o FlattenSeq([j \in 1..Len(e.c) |-> <<Tok(e.c[j].k,"")>> \o WriteId(e.c[j].n, e.c[j].p)])
           \o WriteList(e.a)
     [] e.e = "attr" -> <<Tok(e.n,"")>> \o WriteList(e.a)
Unparse(evs) == FlattenSeq([j \in 1..Len(evs) |-> WriteEv(evs[j], j = 1)]) \o <<Tok("eof","")>>

(* Two event lists are the same program. *)
SameEvent(x, y) == /\ x.e = y.e /\ x.p = y.p /\ x.a = y.a /\ x.c = y.c
                   /\ (x.n = y.n \/ (x.e = "open" /\ x.n = Anonymous))
SameProgram(want, got) == Len(want) = Len(got) /\ \A j \in 1..Len(want) : SameEvent(want[j], got[j])
=============================================================================
