----------------------------- MODULE T_RankedDag -----------------------------
(* Traces of the real container, checked against RankedDag.                 *)
EXTENDS RankedDag, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
tvars == <<n, edges, rows, i, l>>
C == Cases[i]
Done == i > 0 /\ l > Len(C.ops)
S == C.out.steps[l]

TInit == Init /\ i = 0 /\ l = 1
Pick == i = 0 /\ i' \in 1..Len(Cases) /\ UNCHANGED <<n, edges, rows, l>>

CountIn(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
B(b) == b

(* The observable state of the container after the operation. *)
StateMatches(st) ==
   /\ st.n = n'
   /\ Len(st.succ) = n' /\ Len(st.pred) = n'
   /\ \A a \in NodesOf(n') :
        /\ Len(st.succ[a+1]) = OutDeg(edges', a)
        /\ Len(st.pred[a+1]) = InDeg(edges', a)
        /\ \A b \in NodesOf(n') :
             /\ CountIn(st.succ[a+1], b) = Mult(edges', <<a, b>>)
             /\ CountIn(st.pred[a+1], b) = Mult(edges', <<b, a>>)
   /\ st.rows = rows'

QueriesMatch(q) ==
   /\ q.len = n' /\ q.empty = (n' = 0) /\ q.levels = Len(rows')
   /\ q.iter = [j \in 1..n' |-> j - 1]
   /\ \A a \in NodesOf(n') :
        LET R == ReachSet(edges', a) IN
        /\ \A b \in NodesOf(n') : q.reach[a+1][b+1] = (b \in R)
        /\ q.sp[a+1] = IF InDeg(edges', a) = 1
                       THEN <<CHOOSE b \in Pred(edges', a) : TRUE>> ELSE <<>>
        /\ q.ss[a+1] = IF OutDeg(edges', a) = 1
                       THEN <<CHOOSE b \in Succ(edges', a) : TRUE>> ELSE <<>>
        /\ q.lvl[a+1] = LevelOf(rows', a)
        /\ \A L \in 1..(Len(rows') + 1) :
             LET r == IF L > Len(rows') THEN <<>> ELSE rows'[L] IN
             /\ q.first[L][a+1] = (r # <<>> /\ Head(r) = a)
             /\ q.last[L][a+1] = (r # <<>> /\ r[Len(r)] = a)

Returned(x) == S.ret = x
Accepted == /\ S.oc = "ok" /\ S.qc = "ok"
            /\ StateMatches(S.o.st) /\ QueriesMatch(S.o.q)

Advance == l' = l + 1 /\ i' = i
A(op, j) == op.a[j]

(* What the container does not promise: ranking or bulk-adding to a cyclic  *)
(* graph is a misuse, the rest of such a history is not constrained.        *)
Misuse(op) == op.o \in {"rank", "news"} /\ (~Acyclic(edges) \/ (op.o = "rank" /\ n = 0))

Step == /\ i > 0 /\ ~Done /\ C.outcome = "ok"
        /\ LET op == C.ops[l] IN
           \/ Misuse(op) /\ l' = Len(C.ops) + 1 /\ UNCHANGED <<n, edges, rows, i>>
           \/ /\ op.o = "new" /\ NewNodes(1) /\ Returned(<<n>>) /\ Accepted /\ Advance
           \/ /\ op.o = "news" /\ ~Misuse(op) /\ NewNodes(A(op,1)) /\ Accepted /\ Advance
           \/ /\ op.o = "edge" /\ AddEdge(A(op,1), A(op,2)) /\ Accepted /\ Advance
           \/ /\ op.o = "unedge" /\ RemoveEdge(A(op,1), A(op,2))
              /\ Returned(<<IF Mult(edges, <<A(op,1), A(op,2)>>) > 0 THEN 1 ELSE 0>>)
              /\ Accepted /\ Advance
           \/ /\ op.o = "move"
              /\ Move(A(op,1), A(op,2), IF Len(op.a) > 2 THEN <<A(op,3)>> ELSE <<>>)
              /\ Accepted /\ Advance
           \/ /\ op.o = "rank" /\ ~Misuse(op) /\ S.oc = "ok" /\ S.qc = "ok"
              /\ IsRanking(S.o.st.rows, edges, n)
              /\ rows' = S.o.st.rows /\ UNCHANGED <<n, edges>>
              /\ Accepted /\ Advance
           \/ /\ op.o = "verify" /\ Acyclic(edges) /\ UNCHANGED vars /\ Accepted /\ Advance
           \/ \* a cycle is reported
              /\ op.o = "verify" /\ ~Acyclic(edges) /\ S.oc = "panic"
              /\ l' = Len(C.ops) + 1 /\ UNCHANGED <<n, edges, rows, i>>
           \/ /\ op.o = "clear" /\ Clear /\ Accepted /\ Advance
TNext == Pick \/ Step \/ (Done /\ UNCHANGED tvars)
=============================================================================
