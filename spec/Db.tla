--------------------------------- MODULE Db ---------------------------------
(***************************************************************************)
(* What a DatabaseWriter owes, as a monitor over its calls and what it     *)
(* passes to its inner writer.  Records are numbered 1, 2, .. as they are  *)
(* offered (those which don't fit the schema have no number), so what is   *)
(* pending is lo..hi.                                                      *)
(*                                                                         *)
(*   apps a b   records a..b were appended, every call returned, nothing   *)
(*              was passed                                                 *)
(*   app i      record i is offered (0: it doesn't fit); ret ok            *)
(*   pass a b same   a..b was passed (in order, with equal values)         *)
(*   fail       the inner writer refused                                   *)
(*   final      the finalizer ran;  ffail: it raised                       *)
(*   kept same  at the end: the batches passed hold what they held then    *)
(*   fin/del    finalize is called, the writer is disposed of; fret ok n   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

DbInit == [lo |-> 1, hi |-> 0, cur |-> -1, in |-> "", failed |-> FALSE, over |-> FALSE, finals |-> 0]

Pending(s) == s.hi - s.lo + 1

DbStep(s, ev, B) ==
  CASE ev.e = "apps" ->
         IF s.in # "" \/ ev.a # s.hi + 1 \/ ev.b < ev.a \/ ev.b - s.lo + 1 >= B THEN <<>> ELSE <<[s EXCEPT !.hi = ev.b]>>
    [] ev.e = "app" ->
         IF s.in # "" THEN <<>>
         ELSE IF ev.i = 0 THEN <<[s EXCEPT !.in = "app", !.cur = 0, !.failed = FALSE]>>
         ELSE IF ev.i # s.hi + 1 THEN <<>>
         ELSE <<[s EXCEPT !.in = "app", !.cur = ev.i, !.hi = ev.i, !.failed = FALSE]>>
    [] ev.e = "pass" ->
         IF s.in = "" \/ s.failed \/ ~ev.same \/ ev.a # s.lo \/ ev.b # s.hi \/ Pending(s) = 0 THEN <<>>
         ELSE IF s.in = "app" /\ Pending(s) < B THEN <<>>
         ELSE IF ~s.over /\ Pending(s) > B THEN <<>>
         ELSE <<[s EXCEPT !.lo = s.hi + 1, !.over = FALSE]>>
    [] ev.e = "fail" -> IF s.in = "" THEN <<>> ELSE <<[s EXCEPT !.failed = TRUE, !.over = TRUE]>>
    [] ev.e = "final" -> IF s.in \notin {"fin", "del"} \/ s.failed \/ Pending(s) > 0 \/ s.finals > 0 THEN <<>> ELSE <<[s EXCEPT !.finals = 1]>>
    [] ev.e = "ffail" -> IF s.in \notin {"fin", "del"} \/ s.failed \/ Pending(s) > 0 \/ s.finals > 0 THEN <<>> ELSE <<[s EXCEPT !.failed = TRUE]>>
    [] ev.e = "ret" ->
         IF s.in # "app" THEN <<>>
         ELSE IF s.cur = 0 THEN (IF ev.ok THEN <<>> ELSE <<[s EXCEPT !.in = ""]>>)
         ELSE IF ev.ok # ~s.failed \/ (ev.ok /\ Pending(s) >= B) THEN <<>>
         ELSE <<[s EXCEPT !.in = ""]>>
    [] ev.e \in {"fin", "del"} -> IF s.in # "" THEN <<>> ELSE <<[s EXCEPT !.in = ev.e, !.failed = FALSE]>>
    [] ev.e = "fret" ->
         IF s.in = "" \/ s.in = "app" \/ (s.in = "fin" /\ ev.ok # ~s.failed) THEN <<>>
         ELSE IF s.in = "fin" /\ ev.ok /\ ~(Pending(s) = 0 /\ s.finals = 1 /\ ev.n = s.hi) THEN <<>>
         ELSE IF s.in = "del" /\ ~s.failed /\ ~(Pending(s) = 0 /\ s.finals = 1) THEN <<>>
         ELSE <<[s EXCEPT !.in = ""]>>
    [] ev.e = "kept" -> IF s.in = "" /\ ev.same THEN <<s>> ELSE <<>>
    [] OTHER -> <<>>
=============================================================================
