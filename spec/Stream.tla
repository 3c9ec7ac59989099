------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a StreamWriter owes its users, whatever its threads do, as a       *)
(* monitor over the calls made to it and the blobs it stores.              *)
(*                                                                         *)
(* Events (t is the thread, 0 is the background thread; w the writer):     *)
(*   app   append is called: record i, of path p                           *)
(*   ret   it returned (ok) or raised                                      *)
(*   put   a blob with recs was stored at p                                *)
(*   fail  the store refused                                               *)
(*   fin, fret   finalize is called, returned (ok) or raised               *)
(*                                                                         *)
(* The records of thread t are t * 1000 + 1, t * 1000 + 2, .. in the order *)
(* it appends them.                                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

StreamInit == [busy   |-> {},      \* [i, p, w, t] appends under way
               kept   |-> {},      \* [i, p, w] acknowledged, in no stored blob
               maybe  |-> {},      \* [i, p, w] raised as the store failed, in no stored blob
               stored |-> {},      \* records
               order  |-> {},      \* <<path, record>> stored
               fins   |-> {},      \* [t, owed]: what was acknowledged when finalize was called
               failed |-> {}]      \* threads whose call met a failing store

Thread(r) == r \div 1000
Calls(s) == {x.t : x \in s.busy} \cup {x.t : x \in s.fins}
Slim(x) == [i |-> x.i, p |-> x.p, w |-> x.w]
Open(s) == s.kept \cup s.maybe \cup {Slim(x) : x \in s.busy}

(* the records of a put: each known, for this path, not stored yet, once,  *)
(* and those of one thread in order                                        *)
PutOK(s, ev) ==
    LET r == ev.recs
        mine == {x \in Open(s) : x.p = ev.p}
        before == {x \in s.order : x[1] = ev.p}
    IN
    /\ r # <<>>
    /\ \A k \in 1..Len(r) :
         /\ r[k] \notin s.stored
         /\ \E x \in mine : x.i = r[k]
         /\ \A x \in before : Thread(x[2]) = Thread(r[k]) => x[2] < r[k]
    /\ \A j, k \in 1..Len(r) : j < k => r[j] # r[k] /\ (Thread(r[j]) = Thread(r[k]) => r[j] < r[k])

(* <<>> when the event breaks the contract, else <<next state>> *)
StreamStep(s, ev) ==
  CASE ev.e = "app" ->
         IF ev.t \in Calls(s) THEN <<>>
         ELSE <<[s EXCEPT !.busy = @ \cup {[i |-> ev.i, p |-> ev.p, w |-> ev.w, t |-> ev.t]}, !.failed = @ \ {ev.t}]>>
    [] ev.e = "put" ->
         IF ~PutOK(s, ev) THEN <<>>
         ELSE LET rs == {ev.recs[k] : k \in 1..Len(ev.recs)}
              IN <<[s EXCEPT !.stored = @ \cup rs, !.kept = {x \in @ : x.i \notin rs}, !.maybe = {x \in @ : x.i \notin rs},
                             !.order = @ \cup {<<ev.p, r>> : r \in rs}]>>
    [] ev.e = "fail" -> <<[s EXCEPT !.failed = @ \cup {ev.t}]>>
    [] ev.e = "ret" ->
         LET mine == {x \in s.busy : x.t = ev.t /\ x.i = ev.i}
             rest == {Slim(x) : x \in {y \in mine : y.i \notin s.stored}}
         IN IF mine = {} THEN <<>>
            ELSE IF ev.ok
                 THEN IF ev.t \in s.failed THEN <<>> ELSE <<[s EXCEPT !.busy = @ \ mine, !.kept = @ \cup rest]>>
                 ELSE IF ev.t \notin s.failed THEN <<>> ELSE <<[s EXCEPT !.busy = @ \ mine, !.maybe = @ \cup rest]>>
    [] ev.e = "fin" ->
         IF ev.t \in Calls(s) THEN <<>>
         ELSE <<[s EXCEPT !.fins = @ \cup {[t |-> ev.t, owed |-> {x.i : x \in {y \in s.kept : y.w = ev.w}}]}, !.failed = @ \ {ev.t}]>>
    [] ev.e = "fret" ->
         LET mine == {f \in s.fins : f.t = ev.t} IN
         IF mine = {} THEN <<>>
         ELSE IF ev.ok
              THEN IF ev.t \in s.failed \/ \E f \in mine : ~(f.owed \subseteq s.stored) THEN <<>>
                   ELSE <<[s EXCEPT !.fins = @ \ mine]>>
              ELSE IF ev.t \notin s.failed THEN <<>> ELSE <<[s EXCEPT !.fins = @ \ mine]>>
    [] ev.e = "pass" -> <<s>>
    [] OTHER -> <<>>
=============================================================================
