------------------------------- MODULE Cloud -------------------------------
(***************************************************************************)
(* What an adapter for a cloud object store owes its user.                 *)
(*                                                                         *)
(* Storing, as a monitor over the attempts made at the service:            *)
(*   call  the writer is called (append or finalize)                       *)
(*   try   an attempt to store an object: its name, its data, and how it   *)
(*         came out: "ok", "trans" (an error which may go away; the object *)
(*         may or may not have been stored) or "fatal" (any other error)   *)
(*   ret   the call returned (ok) or raised                                *)
(* A transient error is followed by an attempt with the same name and data *)
(* and the call doesn't return before one came out otherwise; every object *)
(* is stored under a name which wasn't used (markers have one name); after *)
(* any other error the call raises.                                        *)
(*                                                                         *)
(* Listing: an object is a bucket and a name (a sequence of parts, where a *)
(* last part "" is a placeholder for a folder).  What's listed for a       *)
(* folder are the objects below it, each once, placeholders excepted.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

CInit == [todo |-> <<>>,      \* the <<name, data>> which has to be tried again
          done |-> {},        \* the <<name, data>> which were stored
          maybe |-> {},       \* names which may have been stored
          failed |-> FALSE]

CStep(s, ev) ==
  CASE ev.e = "call" -> IF s.todo = <<>> THEN {[s EXCEPT !.failed = FALSE]} ELSE {}
    [] ev.e = "try" ->
         IF \/ s.failed
            \/ s.todo # <<>> /\ s.todo # <<ev.name, ev.data>>
            \/ s.todo = <<>> /\ \E d \in s.done : d[1] = ev.name /\ d[2] # ev.data
         THEN {}
         ELSE CASE ev.out = "ok" -> {[s EXCEPT !.todo = <<>>, !.done = @ \cup {<<ev.name, ev.data>>}]}
                [] ev.out = "trans" -> {[s EXCEPT !.todo = <<ev.name, ev.data>>]}
                [] OTHER -> {[s EXCEPT !.todo = <<>>, !.failed = TRUE, !.maybe = @ \cup {ev.name}]}
    [] ev.e = "ret" ->
         IF s.todo = <<>> /\ (s.failed => ~ev.ok) THEN {s} ELSE {}
    [] OTHER -> {}

CStored(s) == {d[1] : d \in s.done}

StartsWith(n, p) == Len(n) >= Len(p) /\ SubSeq(n, 1, Len(p)) = p
Placeholder(n) == n[Len(n)] = ""
Below(o, bucket, folder) ==
    /\ o.bucket = bucket
    /\ Len(o.name) > Len(folder)
    /\ StartsWith(o.name, folder)
    /\ ~Placeholder(o.name)
=============================================================================
