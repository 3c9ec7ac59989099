------------------------------ MODULE T_Multi ------------------------------
(***************************************************************************)
(* Judges reads with several processes.                                    *)
(* scn.blobs   the records (tokens) which can be read from each blob       *)
(* scn.stop    how many records the consumer took (-1: all)                *)
(* obs.recs    the records returned       obs.why  how the read ended      *)
(* obs.err     the error raised or ""     obs.left processes left          *)
(* scn.busy    the consumer doesn't pause    obs.spent  the time spent, s *)
(* obs.serial  what a serial read returned                                 *)
(***************************************************************************)
EXTENDS Judge, MultiProc

Verdict(c) ==
    IF c.obs.why = "native" THEN "ok"
    ELSE FirstBad(<<
        <<"ends", c.obs.why = "finished">>,
        <<"late", c.scn.busy => c.obs.spent < 300>>,
        <<"error", c.obs.err = "">>,
        <<"records", IF c.scn.stop < 0 THEN All(c.scn.blobs, c.obs.recs) ELSE Some(c.scn.blobs, c.obs.recs)>>,
        <<"count", c.scn.stop >= 0 => Len(c.obs.recs) = (IF c.scn.stop < Len(Cat(c.scn.blobs)) THEN c.scn.stop ELSE Len(Cat(c.scn.blobs)))>>,
        <<"serial", c.obs.serial = Cat(c.scn.blobs)>>,
        <<"left", c.obs.left = 0>>
        >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
