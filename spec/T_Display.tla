------------------------------ MODULE T_Display ------------------------------
(* Judges tables of records.  scn.recs [<<column, value>>], scn.limit, scn.kind; obs.before (what's before the first tag), obs.pieces or obs.lines *)
EXTENDS Judge, Display

Verdict(c) ==
    IF c.obs.err # "" THEN "error"
    ELSE IF c.scn.kind = "html"
    THEN FirstBad(<<
        <<"start", c.obs.before = <<>> >>,
        <<"markup", Parsed(c.obs.pieces)>>,
        <<"tags", OnlyStructure(c.obs.pieces)>>,
        <<"escaped", InertTexts(c.obs.pieces)>>,
        <<"table", IsTable(c.scn.recs, c.scn.limit, c.obs.pieces)>>
        >>, 1)
    ELSE FirstBad(<< <<"text", IsTextTable(c.scn.recs, c.scn.limit, c.obs.lines)>> >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
