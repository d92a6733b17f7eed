------------------------------- MODULE Repeat -------------------------------
(***************************************************************************)
(* Drawing is a function of the program: a memory of everything that was   *)
(* drawn so far, in any process and in any order, never sees a program     *)
(* come out in a second way.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE memory
Nothing == <<>>
Draws(p, d) == /\ p \in DOMAIN memory => memory[p] = d
               /\ memory' = IF p \in DOMAIN memory THEN memory ELSE memory @@ (p :> d)
=============================================================================
