------------------------------ MODULE T_Select ------------------------------
(* Judges rows that select expressions gave.  scn.fields, scn.rows, scn.hs; obs.rows, obs.after (the rows then), obs.names *)
EXTENDS Judge, Select

Verdict(c) ==
    IF c.obs.err # "" THEN "error"
    ELSE IF Len(c.obs.rows) # Len(c.scn.rows) THEN "count"
    ELSE LET f == c.scn.fields IN
         FirstBad(<< <<"names", c.scn.names = 1 => c.obs.names = [i \in 1..Len(f) |-> FieldName(f[i])]>>,
                     <<"unchanged", c.obs.after = c.scn.rows>> >>
                  \o [i \in 1..Len(c.obs.rows) |-> <<"row", IsSelected(f, c.scn.rows[i], c.scn.hs, c.obs.rows[i])>>], 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
