------------------------------- MODULE T_Wide -------------------------------
(* aggregates of many groups, and of large numbers, are exact *)
EXTENDS Judge, Wide

Verdict(c) ==
    IF c.obs.err # "" THEN "error"
    ELSE IF c.scn.kind = "groups" THEN (IF WideGroups(c.scn.n, c.scn.k, c.obs.res) THEN "ok" ELSE "groups")
    ELSE FirstBad([i \in 1..Len(c.obs.answers) |-> <<c.obs.answers[i].op, BigAnswer(c.scn.rows, c.obs.answers[i])>>]
                  \o << <<"groups", {c.obs.answers[i].key : i \in 1..Len(c.obs.answers)} = {-1} \cup {c.scn.rows[i].k : i \in 1..Len(c.scn.rows)}>> >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
