------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* What a Reader of a date may return while batches for that date come,    *)
(* die and complete.  old is what was read before the batch (<<>> if there *)
(* was nothing), new all the records of the batch.                         *)
(***************************************************************************)
LOCAL INSTANCE Sequences

(* outcome: "done" finalize returned, "failed" it has nothing to complete, *)
(* "died" the process ended before finalize returned                       *)
MayRead(old, new, outcome) ==
    CASE outcome = "done" -> {new}
      [] outcome = "failed" -> {old}
      [] outcome = "died" -> {old, new}
=============================================================================
