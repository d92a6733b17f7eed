------------------------------ MODULE FileSave ------------------------------
(***************************************************************************)
(* Saving a document (core/utils.rs).  A save opens the target, hands its  *)
(* bytes to the system in as many pieces as the system likes, and reports. *)
(* The system refuses to open some targets and may stop accepting bytes.   *)
(*   fs      target -> what it holds: <<writer, bytes>>, 0 is none        *)
(*   op      the save under way: who writes what, how much is through       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Targets,        \* targets that can be written
          Refused,        \* targets that can't be opened
          Sizes, Limits   \* bytes of a document; bytes the system accepts
VARIABLES fs, op, report, saves
vars == <<fs, op, report, saves>>
Idle == [at |-> "idle"]
Init == fs = [t \in Targets |-> <<0, 0>>] /\ op = Idle /\ report = "none" /\ saves = 0
Begin(t, n, lim) == /\ op = Idle /\ op' = [at |-> "open", t |-> t, n |-> n, lim |-> lim, done |-> 0, who |-> saves + 1]
                    /\ saves' = saves + 1 /\ report' = "none" /\ fs' = fs
Open == /\ op.at = "open"
        /\ IF op.t \in Refused THEN report' = "err" /\ op' = Idle /\ fs' = fs
           ELSE op' = [op EXCEPT !.at = "write"] /\ fs' = [fs EXCEPT ![op.t] = <<op.who, 0>>] /\ report' = report
        /\ saves' = saves
Write == /\ op.at = "write" /\ op.done < op.n
         /\ IF op.done >= op.lim THEN report' = "err" /\ op' = Idle /\ fs' = fs
            ELSE \E k \in 1..(op.n - op.done) :
                   /\ op.done + k <= op.lim
                   /\ fs' = [fs EXCEPT ![op.t] = <<op.who, op.done + k>>]
                   /\ op' = [op EXCEPT !.done = @ + k] /\ report' = report
         /\ saves' = saves
Finish == op.at = "write" /\ op.done = op.n /\ report' = "ok" /\ op' = Idle /\ UNCHANGED <<fs, saves>>
Next == \/ \E t \in Targets \cup Refused, n \in Sizes, lim \in Limits : saves < 3 /\ Begin(t, n, lim)
        \/ op # Idle /\ (Open \/ Write \/ Finish)
Spec == Init /\ [][Next]_vars /\ WF_vars(op # Idle /\ (Open \/ Write \/ Finish))
(* What a caller may rely on. *)
OkIsWhole == [][report' = "ok" /\ op # Idle => /\ fs'[op.t] = <<op.who, op.n>>
                                                /\ op.t \notin Refused /\ op.n <= op.lim]_vars
OthersKept == [][\A t \in Targets : (op = Idle \/ t # op.t) => fs'[t] = fs[t]]_vars
Reports == (op # Idle) ~> (op = Idle)
(* The outcome of one save, seen from outside. *)
Outcome(t, n, lim) == IF t \in Refused \/ n > lim THEN "err" ELSE "ok"
AsForetold == [][op # Idle /\ op' = Idle => report' = Outcome(op.t, op.n, op.lim)]_vars
=============================================================================
