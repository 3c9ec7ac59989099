------------------------------- MODULE T_Xml -------------------------------
(* Judges reads of XML files.  scn.files, sequences of documents in the order of the files; obs.recs *)
EXTENDS Judge, Xml

Docs(c) == Flat(c.scn.files)
Verdict(c) ==
    IF c.obs.err # "" THEN "error"
    ELSE FirstBad(<<
        <<"count", Len(c.obs.recs) = Len(Docs(c))>>,
        <<"document", \A i \in 1..Len(c.obs.recs) : IsDocument(Docs(c)[i], c.obs.recs[i])>>,
        <<"content", \A i \in 1..Len(c.obs.recs) : SameLeaves(Docs(c)[i], c.obs.recs[i])>>
        >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
