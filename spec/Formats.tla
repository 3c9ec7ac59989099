------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* What a read of files in many formats returns.                           *)
(*                                                                         *)
(* A file has records; what can be told from it are all of its records,    *)
(* or - if it's damaged or can't be fetched - the first few of them: at    *)
(* least min and at most max (those before the damage, for files which are *)
(* read a line at a time; none for those which are read as a whole; a      *)
(* compressed file gives what could be decompressed).                      *)
(* Files which aren't data, or of unknown formats, give nothing.           *)
(* A read returns what the files give, one after the other, in the order   *)
(* of their names: no file affects what any other gives.                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

LOCAL Min(a, b) == IF a < b THEN a ELSE b

(* the numbers of records which file f may give when got continues at i:   *)
(* records are told apart by where they are in the file                    *)
RECURSIVE Common(_, _, _)
(* how many records of recs, from the first, are what's in got after i *)
Common(recs, got, i) ==
    IF recs = <<>> \/ i > Len(got) THEN 0
    ELSE IF Head(recs) # got[i] THEN 0
    ELSE 1 + Common(Tail(recs), got, i + 1)

RECURSIVE Gives(_, _, _)
(* the places in got where the files could have come to, from the places P *)
Gives(files, got, P) ==
    IF files = <<>> THEN P
    ELSE LET f == Head(files)
             after == UNION {{i + k : k \in f.min..Min(f.max, Common(f.recs, got, i))} : i \in P}
         IN Gives(Tail(files), got, after)

(* got is a reading of the files (in the order of their names) *)
IsReading(files, got) == (Len(got) + 1) \in Gives(files, got, {1})
=============================================================================
