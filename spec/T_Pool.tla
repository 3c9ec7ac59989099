------------------------------- MODULE T_Pool -------------------------------
(* Judges recorded sessions of one StreamWriter with one appending thread. *)
EXTENDS Judge, Pool

RECURSIVE Run(_, _, _, _)
Run(evs, i, s, w) ==
    IF i > Len(evs) THEN IF s.open = {} THEN "ok" ELSE "left open"
    ELSE LET r == PoolStep(s, evs[i], w.idle, w.cap)
         IN IF r = <<>> THEN "contract:" \o evs[i].e ELSE Run(evs, i + 1, r[1], w)

Verdict(c) == Run(c.obs.ev, 1, PoolInit, c.scn.writers[1])

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
