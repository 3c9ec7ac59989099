------------------------------- MODULE T_Sets -------------------------------
(* every answer given is the answer of the chain of operations on the rows *)
EXTENDS Judge, Rel

Verdict(c) ==
    LET call(k) == c.scn.calls[k]
        ok(k) == c.obs.answers[k].err = "" /\ Answer(call(k).end, Chain(call(k).chain, c.scn.rows), c.obs.answers[k].a)
                                               /\ (call(k).end.k = "keys" => c.obs.answers[k].a = InOrder(call(k).end, c.obs.answers[k].names))
    IN FirstBad([k \in 1..Len(c.scn.calls) |-> <<call(k).end.k, ok(k)>>] \o << <<"source", ~c.obs.changed>> >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
