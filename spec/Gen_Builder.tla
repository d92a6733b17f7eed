---- MODULE Gen_Builder ----
(* Statement histories as programs, for the real builder. *)
EXTENDS MC_Builder, Json
Closed == Len(b.ns) = 0
Emit == Closed => PrintT("@@" \o ToJson(hist))
============================
