----------------------------- MODULE MC_Repeat ------------------------------
(* Why the drawing must not depend on the order in which a hash table lists  *)
(* its keys: processes draw programs, each program needs a set of keys, and  *)
(* every process has an order of its own.  With Sorted the listing is a      *)
(* function of the set, without it the memory is contradicted (see           *)
(* MC_RepeatHash, which TLC rejects).                                        *)
EXTENDS Repeat
CONSTANTS Keys, Progs, Procs, Sorted
VARIABLES order, turn
vars == <<memory, order, turn>>
Orders == {s \in [1..Cardinality(Keys) -> Keys] : \A a, b \in 1..Cardinality(Keys) : a # b => s[a] # s[b]}
Init == memory = Nothing /\ order \in [Procs -> Orders] /\ turn = 0
Small(S) == LET top == CHOOSE x \in S \cup {0} : \A y \in S : y <= x IN SelectSeq([j \in 1..top |-> j], LAMBDA k : k \in S)
Listing(q, S) == IF Sorted THEN Small(S) ELSE SelectSeq(order[q], LAMBDA k : k \in S)
Needs(p) == {k \in Keys : k <= p + 1}
Draw(q, p) == LET d == Listing(q, Needs(p)) IN
              /\ turn' = turn + 1 /\ UNCHANGED order
              /\ memory' = IF p \in DOMAIN memory /\ memory[p] # d THEN p :> <<0>> @@ memory
                           ELSE IF p \in DOMAIN memory THEN memory ELSE memory @@ (p :> d)
Next == turn < 4 /\ \E q \in Procs, p \in Progs : Draw(q, p)
Spec == Init /\ [][Next]_vars
OneWay == \A p \in DOMAIN memory : memory[p] # <<0>>
=============================================================================
