------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Which data of a date (or hour) folder a Reader serves.                  *)
(*                                                                         *)
(* An object of a folder is                                                *)
(*   by     the partitioning it is in ("" if it isn't in a by_ folder)     *)
(*   part   the folder of that partitioning (e.g. hour=01)                 *)
(*   frame  the rank of the frame it is in, in order of time; 0 for none   *)
(*   kind   data, complete, ignore (the control files of its frame),       *)
(*          backout (anything under a BACKOUT folder), other               *)
(*   recs   the records in it                                              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

FramesOf(O) == {o.frame : o \in {x \in O : x.kind # "backout"}} \ {0}
Complete(O, f) == \E o \in O : o.frame = f /\ o.kind = "complete"
Ignored(O, f)  == \E o \in O : o.frame = f /\ o.kind = "ignore"
Valid(O) == {f \in FramesOf(O) : Complete(O, f) /\ ~Ignored(O, f)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* the data objects served from a set of objects without partitionings *)
ServedFolder(O) ==
    LET data == {o \in O : o.kind = "data"}
    IN IF FramesOf(O) = {} THEN data
       ELSE IF Valid(O) = {} THEN {}
       ELSE {o \in data : o.frame = Max(Valid(O))}

Bys(O) == {o.by : o \in {x \in O : x.kind # "backout"}} \ {""}
Parts(O, b) == {o.part : o \in {x \in O : x.by = b}}

(* the data objects served when partitioning b is chosen *)
ServedBy(O, b) == UNION {ServedFolder({o \in O : o.by = b /\ o.part = p}) : p \in Parts(O, b)}

(* The possible servings of a date folder (one, unless there are several   *)
(* partitionings, when any one of them may be chosen).                     *)
(* filter is <<>> or <<partitioning, folder>>                              *)
Servings(O, filter) ==
    IF Bys(O) = {} THEN {ServedFolder(O)}
    ELSE IF filter # <<>> /\ filter[1] \in Bys(O)
         THEN {ServedFolder({o \in O : o.by = filter[1] /\ o.part = filter[2]})}
         ELSE {ServedBy(O, b) : b \in Bys(O)}
=============================================================================
