------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* What a writer (Writer or BatchWriter) owes its user, as a monitor over  *)
(* the calls made to it and the calls it makes to the store.               *)
(*                                                                         *)
(* Events of one writer, in the order they happen:                         *)
(*   app   append(record) is called           t: the record's stored form  *)
(*                                            valid: it meets the schema   *)
(*   put   a data blob was stored             recs: stored forms, in order *)
(*                                            lens: lengths, if text       *)
(*                                            folder: where                *)
(*   mark  the frame.complete marker was stored                            *)
(*   fail  the store refused (nothing stored)                              *)
(*   ret   append returned (ok) or raised                                  *)
(*   fin   finalize is called                 failure: has_failure         *)
(*   fret  finalize returned (ok) or raised                                *)
(*                                                                         *)
(* c is the configuration of the writer:                                   *)
(*   batch   is it a BatchWriter         always  always_complete           *)
(*   limit   blob_size                   sized   is the size rule in force *)
(*                                                                         *)
(* The one thing left open: a record whose append raised because the store *)
(* failed may or may not have been kept (its caller can't tell).  So the   *)
(* monitor keeps the set of states that the events so far can be explained *)
(* by; when none is left, the writer has broken its contract.              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

WInit == [pend   |-> <<>>,      \* accepted, in no stored blob
          infl   |-> <<>>,      \* the record being appended, if it isn't stored yet
          call   |-> "idle",
          valid  |-> TRUE,
          failed |-> FALSE,     \* did the store fail during this call
          n      |-> 0,         \* records accepted
          maybe  |-> 0,         \* records kept though their append raised
          seen   |-> FALSE,     \* has a finalize reported a failure
          marked |-> FALSE,     \* was the marker stored during this call
          folder |-> "",        \* where the blobs are
          mfolder |-> ""]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* C02: never longer than the limit plus the last record; all but the last *)
(* blob (so: those stored by an append) longer than the limit              *)
SizeOK(c, lens, last) ==
    ~c.sized \/ ( /\ Sum(lens) - lens[Len(lens)] <= c.limit
                  /\ last \/ Sum(lens) > c.limit )

FolderOK(s, f) == s.folder \in {"", f} /\ s.mfolder \in {"", f}

MayMark(c, s)  == c.batch /\ ~s.seen /\ s.pend = <<>> /\ (s.n + s.maybe > 0 \/ c.always)
MustMark(c, s) == c.batch /\ ~s.seen /\ (s.n > 0 \/ c.always)

WStep(c, s, ev) ==
  CASE ev.e = "app" ->
         IF s.call = "idle"
         THEN {[s EXCEPT !.call = "app", !.infl = <<ev.t>>, !.valid = ev.valid, !.failed = FALSE]}
         ELSE {}
    [] ev.e = "put" /\ s.call = "app" ->
         IF ev.recs = <<>> \/ ~FolderOK(s, ev.folder) \/ ~SizeOK(c, ev.lens, FALSE) THEN {}
         ELSE (IF ev.recs = s.pend THEN {[s EXCEPT !.pend = <<>>, !.folder = ev.folder]} ELSE {})
              \cup
              (IF s.valid /\ s.infl # <<>> /\ ev.recs = s.pend \o s.infl
               THEN {[s EXCEPT !.pend = <<>>, !.infl = <<>>, !.folder = ev.folder]} ELSE {})
    [] ev.e = "put" /\ s.call = "fin" ->
         IF ev.recs # <<>> /\ ev.recs = s.pend /\ FolderOK(s, ev.folder) /\ SizeOK(c, ev.lens, TRUE)
         THEN {[s EXCEPT !.pend = <<>>, !.folder = ev.folder]} ELSE {}
    [] ev.e = "mark" ->
         IF s.call = "fin" /\ MayMark(c, s) /\ FolderOK(s, ev.folder)
         THEN {[s EXCEPT !.marked = TRUE, !.mfolder = ev.folder]} ELSE {}
    [] ev.e = "fail" ->
         IF s.call # "idle" THEN {[s EXCEPT !.failed = TRUE]} ELSE {}
    [] ev.e = "ret" /\ ev.ok ->
         IF s.call = "app" /\ s.valid /\ ~s.failed
         THEN {[s EXCEPT !.call = "idle", !.pend = @ \o s.infl, !.infl = <<>>, !.n = @ + 1]}
         ELSE {}
    [] ev.e = "ret" /\ ~ev.ok ->
         IF s.call # "app" \/ (s.valid /\ ~s.failed) THEN {}
         ELSE {[s EXCEPT !.call = "idle", !.infl = <<>>]}
              \cup
              (IF s.valid
               THEN {[s EXCEPT !.call = "idle", !.pend = @ \o s.infl, !.infl = <<>>, !.maybe = @ + 1]}
               ELSE {})
    [] ev.e = "fin" ->
         IF s.call = "idle"
         THEN {[s EXCEPT !.call = "fin", !.seen = @ \/ ev.failure, !.failed = FALSE, !.marked = FALSE]}
         ELSE {}
    [] ev.e = "fret" /\ ev.ok ->
         IF /\ s.call = "fin" /\ s.pend = <<>> /\ ~s.failed
            /\ MustMark(c, s) => s.marked
         THEN {[s EXCEPT !.call = "idle"]} ELSE {}
    [] ev.e = "fret" /\ ~ev.ok ->
         IF s.call = "fin" /\ s.failed THEN {[s EXCEPT !.call = "idle"]} ELSE {}
    [] OTHER -> {}

WStepAll(c, S, ev) == UNION {WStep(c, s, ev) : s \in S}
=============================================================================
