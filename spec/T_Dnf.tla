------------------------------- MODULE T_Dnf --------------------------------
EXTENDS Judge, Dnf

Verdict(c) ==
    LET rows == c.scn.rows
        want == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : DnfTrue(c.scn.tree, c.scn.atoms, rows[i]))
    IN FirstBad([k \in 1..Len(c.obs.ways) |-> <<c.obs.ways[k].way, c.obs.ways[k].err = "" /\ c.obs.ways[k].ids = want>>], 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
