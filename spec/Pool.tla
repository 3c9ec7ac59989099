-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The pool of open writers of a StreamWriter.                             *)
(*                                                                         *)
(* A state is a set of [p, last, recs]: the open writers, when each was    *)
(* last written to and what it holds.  One pass of the maintenance at the  *)
(* time `now` closes a set of them.                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Least2(a, b) == IF a < b THEN a ELSE b

(* at exactly the limit either is right: times are measured in fractions   *)
Must(open, now, idle) == {w \in open : now - w.last > idle}
May(open, now, idle) == {w \in open : now - w.last >= idle}

(* how many of n are closed for being over the capacity                    *)
Excess(n, cap) == IF n <= cap THEN 0 ELSE Least2(n - cap, cap)

PassOK(open, closed, now, idle, cap) ==
    \E stale \in {Must(open, now, idle), May(open, now, idle)} :
        LET left == open \ stale
            extra == closed \ stale
        IN /\ stale \subseteq closed /\ closed \subseteq open
           /\ Cardinality(extra) = Excess(Cardinality(left), cap)
           /\ \A a \in extra, b \in left \ extra : a.last <= b.last

(* ---- the monitor over recorded events; s is                              *)
(* [open, closing, cur]: closing holds the writers closed in this pass      *)
PoolInit == [open |-> {}, closing |-> {}, cur |-> 0]
At(s, p) == {w \in s.open : w.p = p}

PoolStep(s, ev, idle, cap) ==
  CASE ev.e = "app" -> <<[s EXCEPT !.cur = ev.i]>>
    [] ev.e = "put" ->
         LET ws == At(s, ev.p) IN
         IF ws = {} THEN <<>>
         ELSE LET w == CHOOSE x \in ws : TRUE IN
              IF ev.recs # w.recs \/ w \in s.closing THEN <<>>
              ELSE IF ev.t = 0 THEN <<[s EXCEPT !.closing = @ \cup {w}]>>
              ELSE <<[s EXCEPT !.open = (@ \ {w}) \cup (IF ev.t = 1 THEN {} ELSE {[w EXCEPT !.recs = <<>>]})]>>
    [] ev.e = "ret" ->
         IF ~ev.ok THEN <<>>
         ELSE LET ws == At(s, ev.p)
                  had == IF ws = {} THEN <<>> ELSE (CHOOSE x \in ws : TRUE).recs
              IN <<[s EXCEPT !.open = (@ \ ws) \cup {[p |-> ev.p, last |-> ev.at, recs |-> Append(had, ev.i)]}]>>
    [] ev.e = "pass" ->
         IF ~PassOK(s.open, s.closing, ev.at, idle, cap) THEN <<>>
         ELSE <<[s EXCEPT !.open = @ \ s.closing, !.closing = {}]>>
    [] ev.e = "fin" -> <<s>>
    [] ev.e = "fret" -> IF ev.ok /\ s.open = {} THEN <<s>> ELSE <<>>
    [] OTHER -> <<>>
=============================================================================
