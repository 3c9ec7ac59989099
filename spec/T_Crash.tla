------------------------------ MODULE T_Crash -------------------------------
(***************************************************************************)
(* Judges batches which were killed.                                       *)
(* scn.first   what was served before the first batch                      *)
(* obs.steps   <<[new, outcome, got, err, chain]>>: chain is 1 if the step *)
(*             comes after the one before it, 0 if it starts afresh        *)
(***************************************************************************)
EXTENDS Judge, Crash

RECURSIVE Walk(_, _, _, _)
Walk(first, steps, i, old) ==
    IF i > Len(steps) THEN "ok"
    ELSE LET s == steps[i]
             o == IF s.chain = 1 THEN old ELSE first
         IN IF s.outcome \notin {"done", "failed", "died"} THEN "outcome"
            ELSE IF s.err \notin {"", "DataNotFoundError"} THEN "error"
            ELSE IF s.got \notin MayRead(o, s.new, s.outcome) THEN s.outcome
            ELSE Walk(first, steps, i + 1, s.got)

Verdict(c) == Walk(c.scn.first, c.obs.steps, 1, c.scn.first)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
