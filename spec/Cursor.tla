------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* Reading with interruptions.  Blobs is the sequence (in name order) of   *)
(* the record sequences, after filtering, of the blobs there are; born[i]  *)
(* is how many readers had been opened when blob i was added.              *)
(* Whatever the interruptions, what is read altogether is All.             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RECURSIVE Joined(_)
Joined(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Joined(Tail(bs))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
