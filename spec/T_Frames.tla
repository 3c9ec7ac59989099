------------------------------ MODULE T_Frames ------------------------------
(***************************************************************************)
(* Judges what a Reader returned from a layout of folders.                 *)
(* scn.folders  the folders (in any order) which are in the range asked    *)
(*              for: each a sequence of objects                            *)
(* scn.filter   <<>> or <<partitioning, folder>>                           *)
(* obs.recs     the records returned      obs.err  the error raised or ""  *)
(* obs.strays   how many records returned are from anywhere else           *)
(***************************************************************************)
EXTENDS Judge, Frames

RECURSIVE SumOver(_, _)
SumOver(S, x) == IF S = {} THEN 0
                 ELSE LET o == CHOOSE y \in S : TRUE IN Count(o.recs, x) + SumOver(S \ {o}, x)

RecsOf(S) == UNION {Range(o.recs) : o \in S}

(* the records returned which come from this folder *)
Mine(obs, O) == SelectSeq(obs.recs, LAMBDA r : r \in RecsOf(O))

IsServing(obs, O, S) ==
    LET mine == Mine(obs, O)
    IN \A r \in RecsOf(O) : Count(mine, r) = SumOver(S, r)

FolderOK(obs, O, filter) == \E S \in Servings(O, filter) : IsServing(obs, O, S)

Verdict(c) ==
    LET fs == [i \in 1..Len(c.scn.folders) |-> Range(c.scn.folders[i])]
        all == UNION Range(fs)
    IN FirstBad(<<
        <<"error", c.obs.err \in {"", "DataNotFoundError"}>>,
        <<"stray", \A i \in 1..Len(c.obs.recs) : c.obs.recs[i] \in RecsOf(all)>>,
        <<"served", \A i \in 1..Len(fs) : FolderOK(c.obs, fs[i], c.scn.filter)>>,
        <<"notfound", c.obs.err = "DataNotFoundError" => c.obs.recs = <<>> >>
        >>, 1)

JNext == JStep(Verdict)
JSpec == JInit /\ [][JNext]_<<ci, judged>>
=============================================================================
