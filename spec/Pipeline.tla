------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* From text to picture: the phases of one run and what may come out of    *)
(* each.  A run reads a text; a text that is no program ends in an error;  *)
(* a program is printed, built and drawn, once for each of the eight       *)
(* combinations of the flags debug, no-optimization and no-layout.         *)
(* Nothing but the steps below may happen: no phase panics, hangs or stops *)
(* half way.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
Flags == BOOLEAN \X BOOLEAN \X BOOLEAN
VARIABLES at, drawn
pvars == <<at, drawn>>
Start == at = "text" /\ drawn = {}
Refuse == at = "text" /\ at' = "refused" /\ UNCHANGED drawn
Parse == at = "text" /\ at' = "tree" /\ UNCHANGED drawn
Dump == at = "tree" /\ at' = "dumped" /\ UNCHANGED drawn
Build == at = "dumped" /\ at' = "graph" /\ UNCHANGED drawn
(* A drawing is one whole document with finite coordinates. *)
Draw(f) == at = "graph" /\ f \in Flags \ drawn /\ drawn' = drawn \cup {f} /\ at' = at
Ended == at = "refused" \/ (at = "graph" /\ drawn = Flags)
=============================================================================
