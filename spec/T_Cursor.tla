------------------------------ MODULE T_Cursor ------------------------------
(***************************************************************************)
(* Judges an interrupted read.                                             *)
(* scn.blobs   the records (that satisfy the filter) of the blobs, in name *)
(*             order, as they are at the end                               *)
(* scn.hops    for each reader: [seen, n]: the number of blobs there when  *)
(*             it was opened, how many records were taken (-1: all)        *)
(* obs.chunks  what each reader returned; obs.full what one uninterrupted  *)
(*             reader returns at the end; obs.err                          *)
(***************************************************************************)
EXTENDS Judge, Cursor

RECURSIVE Hops(_, _, _, _)
Hops(c, i, pos, k) ==
    IF i > Len(c.scn.hops) THEN "ok"
    ELSE LET hop == c.scn.hops[i]
             known == Joined(SubSeq(c.scn.blobs, 1, hop.seen))
             left == SubSeq(known, pos + 1, Len(known))
             want == IF hop.n = -1 \/ hop.n > Len(left) THEN left ELSE SubSeq(left, 1, hop.n)
         IN IF c.obs.chunks[i] # want THEN "hop" \o ToString(i)
            ELSE Hops(c, i + 1, pos + Len(want), k)

Verdict(c) ==
    FirstBad(<<
        <<"error", c.obs.err = "">>,
        <<"full", c.obs.full = Joined(c.scn.blobs)>>,
        <<"altogether", Joined(c.obs.chunks) = c.obs.full>>
        >>, 1)
    
Strict(c) == LET v == Verdict(c) IN IF v # "ok" THEN v ELSE Hops(c, 1, 0, 0)

JNext == JStep(Strict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
