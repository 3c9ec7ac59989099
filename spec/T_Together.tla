----------------------------- MODULE T_Together -----------------------------
(* Judges jobs done together.  scn.jobs; obs.out, what each of them gave, obs.errs, obs.kept (1: the parameters they were given, and their records, are as they were) *)
EXTENDS Judge, Together

Verdict(c) ==
    FirstBad(<<
        <<"error", \A i \in 1..Len(c.scn.jobs) : c.obs.errs[i] = "">>,
        <<"alone", \A i \in 1..Len(c.scn.jobs) : c.obs.out[i] = Gives(c.scn.jobs[i])>>,
        <<"kept", c.obs.kept = 1>>
        >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
