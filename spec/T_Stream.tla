------------------------------ MODULE T_Stream ------------------------------
(***************************************************************************)
(* Judges recorded sessions of StreamWriters.  The last thing every        *)
(* session does is to finalize every writer when no append is under way.   *)
(***************************************************************************)
EXTENDS Judge, Stream

RECURSIVE Run(_, _, _)
Run(evs, i, s) ==
    IF i > Len(evs) THEN <<"end", s>>
    ELSE LET n == StreamStep(s, evs[i])
         IN IF n = <<>> THEN <<"contract:" \o (IF evs[i].e = "odd" THEN evs[i].what ELSE evs[i].e), s>> ELSE Run(evs, i + 1, n[1])

(* did the last finalize of every writer return normally *)
LastOK(evs, w) == LET fs == {i \in 1..Len(evs) : evs[i].e = "fret" /\ evs[i].w = w}
                  IN fs # {} /\ evs[CHOOSE i \in fs : \A j \in fs : j <= i].ok

Verdict(c) ==
    LET evs == c.obs.ev
        r == Run(evs, 1, StreamInit)
    IN IF r[1] # "end" THEN r[1]
       ELSE FirstBad(<<
         <<"unfinished", r[2].busy = {} /\ r[2].fins = {} >>,
         <<"lost", \A x \in r[2].kept : ~LastOK(evs, x.w)>>,
         <<"finalized", c.scn.calm = 1 => \A w \in 0..(Len(c.scn.writers) - 1) : LastOK(evs, w)>>
         >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
