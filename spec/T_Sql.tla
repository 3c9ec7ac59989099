------------------------------- MODULE T_Sql -------------------------------
(* the rows a statement returns are an answer to it *)
EXTENDS Judge, Sql

Verdict(c) ==
    FirstBad([k \in 1..Len(c.scn.queries) |->
        <<"statement " \o ToString(k), c.obs.answers[k].err = "" /\ IsAnswer(c.obs.answers[k].rows, c.scn.queries[k], c.scn.rows)>>], 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
