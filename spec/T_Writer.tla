------------------------------ MODULE T_Writer ------------------------------
(***************************************************************************)
(* Judges recorded sessions of one or more writers (interleaved), and what *)
(* a Reader returned afterwards.                                           *)
(*                                                                         *)
(* scn.cfgs   the writers: batch, always, limit, sized, and                *)
(*            ds     the dataset, date and partitions it writes to (a name)*)
(*            frame  for a BatchWriter, the rank of its frame (0 otherwise)*)
(* obs.ev     the events, each with w, the writer                          *)
(* obs.reads  what a Reader returned for a ds, in order                    *)
(***************************************************************************)
EXTENDS Judge, Writer

RECURSIVE Run(_, _, _, _)
(* <<index of the event that can't be explained or 0, states>> *)
Run(cfgs, evs, i, M) ==
    IF i > Len(evs) THEN <<0, M>>
    ELSE LET w == evs[i].w
             S == WStepAll(cfgs[w], M[w], evs[i])
         IN IF S = {} THEN <<i, M>> ELSE Run(cfgs, evs, i + 1, [M EXCEPT ![w] = S])

Marked(evs, w) == \E i \in 1..Len(evs) : evs[i].e = "mark" /\ evs[i].w = w

(* the writers whose data a Reader of ds is to return *)
Served(cfgs, evs, ds) ==
    LET ws == {w \in 1..Len(cfgs) : cfgs[w].ds = ds}
        ok == {w \in ws : Marked(evs, w)}
    IN IF \E w \in ws : cfgs[w].batch
       THEN {w \in ok : \A v \in ok : cfgs[v].frame <= cfgs[w].frame}
       ELSE ws

Stored(evs, ws) ==
    Flat([i \in 1..Len(evs) |-> IF evs[i].e = "put" /\ evs[i].w \in ws THEN evs[i].recs ELSE <<>>])

Verdict(c) ==
    LET cfgs == c.scn.cfgs
        evs  == c.obs.ev
        r    == Run(cfgs, evs, 1, [w \in 1..Len(cfgs) |-> {WInit}])
    IN IF r[1] # 0 THEN "contract:" \o evs[r[1]].e
       ELSE FirstBad(<<
         <<"unfinished", \A w \in 1..Len(cfgs) : \E s \in r[2][w] : s.call = "idle">>,
         <<"read", \A i \in 1..Len(c.obs.reads) :
             c.obs.reads[i].recs = Stored(evs, Served(cfgs, evs, c.obs.reads[i].ds))>>
         >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
