-------------------------------- MODULE MC_Db -------------------------------
(***************************************************************************)
(* The design of the DatabaseWriter: a log of records, passed when it has  *)
(* Batch of them, when finalized and when disposed of.  Passing and the    *)
(* finalizer may fail.  Composed with the monitor.                         *)
(***************************************************************************)
EXTENDS Db, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS BUG, Batch, MaxOps, MaxFails

VARIABLES wal, n, done, dead, ops, fails, mon, ok, h
vars == <<wal, n, done, dead, ops, fails, mon, ok, h>>
View == <<wal, n, done, dead, ops, fails, mon, ok>>

Init == wal = <<>> /\ n = 0 /\ done = FALSE /\ dead = FALSE /\ ops = 0 /\ fails = 0 /\ mon = DbInit /\ ok = TRUE /\ h = <<>>

Feed(evs) ==
    LET F[k \in 0..Len(evs)] == IF k = 0 THEN <<mon>> ELSE IF F[k-1] = <<>> THEN <<>> ELSE DbStep(F[k-1][1], evs[k], Batch)
        r == F[Len(evs)]
    IN ok' = (ok /\ r # <<>>) /\ mon' = IF r = <<>> THEN mon ELSE r[1]

PassEv(w) == [e |-> "pass", a |-> w[1], b |-> w[Len(w)], same |-> \A i \in 1..Len(w) : w[i] = w[1] + i - 1]
More == ~dead /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED dead

Full(w) == IF BUG = "gt" THEN Len(w) > Batch ELSE Len(w) >= Batch

Append1 ==
    /\ More /\ ~done /\ n' = n + 1 /\ UNCHANGED done
    /\ LET w == Append(wal, n') IN
       IF ~Full(w)
       THEN wal' = w /\ Feed(<<[e |-> "app", i |-> n'], [e |-> "ret", ok |-> TRUE]>>) /\ UNCHANGED fails /\ h' = Append(h, "a")
       ELSE \/ /\ wal' = <<>> /\ UNCHANGED fails /\ h' = Append(h, "a")
               /\ Feed(<<[e |-> "app", i |-> n'], PassEv(w), [e |-> "ret", ok |-> TRUE]>>)
            \/ /\ fails < MaxFails /\ fails' = fails + 1 /\ h' = Append(h, "A")
               /\ wal' = IF BUG = "clearfirst" THEN <<>> ELSE IF BUG = "droplast" THEN wal ELSE w
               /\ Feed(<<[e |-> "app", i |-> n'], [e |-> "fail"], [e |-> "ret", ok |-> (BUG = "swallow")]>>)

Bad == More /\ ~done /\ UNCHANGED <<wal, n, done, fails>> /\ h' = Append(h, "x")
       /\ Feed(<<[e |-> "app", i |-> 0], [e |-> "ret", ok |-> FALSE]>>)

Call == {"fin", "del"}
Finish(c) ==
    LET pass == IF wal = <<>> \/ (BUG = "forget" /\ Len(wal) = 1) THEN <<>> ELSE <<PassEv(wal)>>
        once == IF done /\ BUG # "twice" THEN <<>> ELSE <<[e |-> "final"]>>
    IN
    \/ /\ wal' = <<>> /\ done' = TRUE /\ UNCHANGED fails /\ h' = Append(h, c)
       /\ Feed(<<[e |-> c]>> \o (IF BUG = "early" THEN once \o pass ELSE pass \o once) \o <<[e |-> "fret", ok |-> TRUE, n |-> n]>>)
    \/ /\ fails < MaxFails /\ fails' = fails + 1 /\ pass # <<>> /\ UNCHANGED <<wal, done>> /\ h' = Append(h, IF c = "fin" THEN "FIN" ELSE "DEL")
       /\ Feed(<<[e |-> c], [e |-> "fail"], [e |-> "fret", ok |-> (c = "del"), n |-> n]>>)
    \/ /\ fails < MaxFails /\ fails' = fails + 1 /\ ~done /\ wal' = <<>> /\ UNCHANGED done /\ h' = Append(h, IF c = "fin" THEN "FFIN" ELSE "FDEL")
       /\ Feed(<<[e |-> c]>> \o pass \o <<[e |-> "ffail"], [e |-> "fret", ok |-> (c = "del"), n |-> n]>>)

Fin == More /\ UNCHANGED n /\ Finish("fin")
Del == ~dead /\ dead' = TRUE /\ UNCHANGED <<n, ops>> /\ Finish("del")

Next == Append1 \/ Bad \/ Fin \/ Del
Spec == Init /\ [][Next]_vars

Contract == /\ ok
            /\ wal = [i \in 1..Pending(mon) |-> mon.lo + i - 1]
Emit == dead => PrintT(ToJson(h))
=============================================================================
