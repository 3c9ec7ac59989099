------------------------------ MODULE T_Params ------------------------------
(* calls are refused, before storage is touched, or accepted, as their      *)
(* parameters say                                                           *)
EXTENDS Judge, Params

Verdict(c) ==
    LET call(k) == LET x == c.scn.calls[k] IN [given |-> Range(x.given), true |-> Range(x.true), more |-> Range(x.more), needs |-> Range(x.needs)]
        dates(k) == "freshness_limit" \in call(k).true /\ c.scn.calls[k].start # c.scn.calls[k].end
        o(k) == c.obs.answers[k]
    IN FirstBad([k \in 1..Len(c.scn.calls) |->
                    IF Refused(call(k)) \/ dates(k) THEN <<"refuse", o(k).err # "" /\ o(k).touched = 0 /\ (Refused(call(k)) => o(k).err = "InvalidReaderConfigError")>>
                    ELSE <<"accept", o(k).err = "">>], 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
