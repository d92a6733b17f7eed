------------------------------ MODULE ScopedMap ------------------------------
(***************************************************************************)
(* The scoped map (layout/src/adt/map.rs): a stack of maps.  Entering a    *)
(* scope pushes an empty map, leaving it pops it, an insertion writes the  *)
(* innermost map and a lookup finds the innermost definition.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Vals, MaxDepth

VARIABLE stack          \* a sequence of functions, each from a subset of Keys

Empty == [k \in {} |-> 0]

(* Pure operators, shared with the trace specification. *)
SPush(s)     == Append(s, Empty)
SPop(s)      == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
SIns(s,k,v)  == [s EXCEPT ![Len(s)] = (k :> v) @@ @]
Defs(s,k)    == {d \in 1..Len(s) : k \in DOMAIN s[d]}
Max(S)       == CHOOSE x \in S : \A y \in S : y <= x
SGet(s,k)    == IF Defs(s,k) = {} THEN <<>> ELSE <<s[Max(Defs(s,k))][k]>>
SKeys(s)     == UNION {DOMAIN s[d] : d \in 1..Len(s)}

Init == stack = <<>>

Push == Len(stack) < MaxDepth /\ stack' = SPush(stack)
Pop  == stack' = SPop(stack)
Insert(k, v) == stack # <<>> /\ stack' = SIns(stack, k, v)

Next == Push \/ Pop \/ \E k \in Keys, v \in Vals : Insert(k, v)
Spec == Init /\ [][Next]_stack

TypeOK == \A d \in 1..Len(stack) :
            /\ DOMAIN stack[d] \subseteq Keys
            /\ \A k \in DOMAIN stack[d] : stack[d][k] \in Vals

(* What the user of the map relies on. *)
ScopeRestored ==        \* leaving the scope just entered undoes all of it
   \A k \in Keys : SGet(SPop(SPush(stack)), k) = SGet(stack, k)
InnerHides ==           \* whatever is inserted in a new scope disappears with it
   \A k \in Keys, v \in Vals, q \in Keys :
      SGet(SPop(SIns(SPush(stack), k, v)), q) = SGet(stack, q)
InsertVisible ==
   stack # <<>> => \A k \in Keys, v \in Vals, q \in Keys :
      SGet(SIns(stack, k, v), q) = IF q = k THEN <<v>> ELSE SGet(stack, q)
Inherited ==            \* an empty inner scope sees everything
   \A k \in Keys : SGet(SPush(stack), k) = SGet(stack, k)
KeysAreDefined == \A k \in Keys : (SGet(stack, k) # <<>>) <=> (k \in SKeys(stack))
=============================================================================
