------------------------------ MODULE T_Formats ------------------------------
(***************************************************************************)
(* Judges reads of files.  scn.files  the files, in the order of names     *)
(* obs.recs  the records returned    obs.err  the error raised, or ""      *)
(***************************************************************************)
EXTENDS Judge, Formats

Verdict(c) ==
    FirstBad(<<
        <<"error", c.obs.err = "" \/ (c.obs.err = "DataNotFoundError" /\ ~c.scn.some)>>,
        <<"found", c.scn.some \/ c.obs.err = "DataNotFoundError">>,
        <<"records", IsReading(c.scn.files, c.obs.recs)>>
        >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
