------------------------------ MODULE T_Access ------------------------------
(* a dataset which may not be read fails so before storage is touched, one  *)
(* which may is read                                                        *)
EXTENDS Judge, Access

Verdict(c) ==
    LET call(k) == c.scn.calls[k]
        x(k) == c.obs.answers[k]
        out(k) == Outcome(call(k).how, call(k).name, call(k).prefixes)
        dset(k) == IF call(k).how = "sql" THEN Dataset(call(k).name) ELSE call(k).name
        of(k) == {i \in 1..Len(c.scn.blobs) : StartsWith(c.scn.blobs[i], Folder(dset(k)))}
        ok(k) == CASE out(k) = "read" -> x(k).err = "" /\ Range(x(k).ids) = of(k) /\ Len(x(k).ids) = Cardinality(of(k))
                   [] out(k) = "AccessDenied" -> x(k).err = "AccessDenied" /\ x(k).touched = 0
                   [] OTHER -> x(k).err # "" /\ x(k).touched = 0
    IN FirstBad([k \in 1..Len(c.scn.calls) |-> <<out(k), ok(k)>>], 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
