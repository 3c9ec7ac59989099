-------------------------------- MODULE T_Db --------------------------------
EXTENDS Judge, Db

RECURSIVE Run(_, _, _)
Run(evs, i, s) == IF i > Len(evs) THEN IF s.in = "" THEN "ok" ELSE "unfinished"
                  ELSE LET r == DbStep(s, evs[i], 100) IN IF r = <<>> THEN "contract:" \o evs[i].e ELSE Run(evs, i + 1, r[1])
Verdict(c) == Run(c.obs.ev, 1, DbInit)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
