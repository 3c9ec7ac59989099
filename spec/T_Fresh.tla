------------------------------ MODULE T_Fresh -------------------------------
(***************************************************************************)
(* Judges a read with a freshness limit.                                   *)
(* scn.days   the objects of each day, from the day asked for backwards    *)
(* scn.limit  in hours, -1 for none     scn.range  1 if start # end        *)
(* obs.recs, obs.err                                                       *)
(***************************************************************************)
EXTENDS Judge, Fresh

Verdict(c) ==
    LET s == c.scn
        D == [i \in 1..Len(s.days) |-> {o \in Range(s.days[i]) : o.kind # "other"}]
        r == FreshResult(D, s.limit)
        recs == c.obs.recs
    IN IF s.range = 1 THEN FirstBad(<<<<"refused", c.obs.err = "init:InvalidCombinationError">>, <<"nothing", recs = <<>> >> >>, 1)
       ELSE IF r[1] = "notfound" THEN FirstBad(<<
            <<"notfound", recs = <<>> >>,
            <<"error", c.obs.err = "DataNotFoundError">>>>, 1)
       ELSE FirstBad(<<
            <<"found", c.obs.err = "">>,
            <<"day", \E S \in Servings(D[r[2] + 1], <<>>) :
                 /\ Range(recs) = UNION {Range(o.recs) : o \in S}
                 /\ Len(recs) = Cardinality(Range(recs))>> >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
