------------------------------- MODULE T_Range -------------------------------
(***************************************************************************)
(* Judges what a Reader returned for a date range.                         *)
(* scn.a, scn.b  the bounds (slots), in any order    scn.g  granularity    *)
(* scn.parts     <<[slot, recs]>>: the partitions which hold data          *)
(* obs.recs, obs.err                                                       *)
(***************************************************************************)
EXTENDS Judge, Calendar

Verdict(c) ==
    LET s == c.scn
        want == Flat([i \in 1..Len(s.parts) |-> IF InRange(s.parts[i].slot, s.a, s.b, s.g) THEN s.parts[i].recs ELSE <<>>])
        r == c.obs.recs
    IN FirstBad(<<
        <<"error", c.obs.err \in {"", "DataNotFoundError"}>>,
        <<"outside", Range(r) \subseteq Range(want)>>,
        <<"missing", Range(want) \subseteq Range(r)>>,
        <<"repeated", SameBag(r, want)>>
        >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
