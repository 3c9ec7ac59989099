----------------------------- MODULE T_Records -----------------------------
(* Judges the helpers for records.  scn.kind, scn.rec (a value) and the call's parameters; obs.out, obs.same (is the source as it was) *)
EXTENDS Judge, Records

Right(c) ==
    LET s == c.scn
        o == c.obs.out
    IN CASE s.kind = "flatten" -> IsFlat(s.rec, s.sep, o)
         [] s.kind = "order" -> IsOrdered(s.rec.v, o)
         [] s.kind = "select" -> IsSelection(s.rec.v, s.fields, o)
         [] s.kind = "set" -> IsSet(s.rec.v, s.field, s.value, o)
         [] s.kind = "histogram" -> IsHistogram(s.values, s.bins, o)
Verdict(c) ==
    IF c.obs.err # "" THEN "error"
    ELSE FirstBad(<< <<"answer", Right(c)>>, <<"source", c.obs.same>> >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
